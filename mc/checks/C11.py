"""C11: all single-operation kernels and all small expression trees, compiled by verificarlo and run
under recording backends; whole programs compared with plain clang."""
import itertools, os, struct
import common
from common import sh
from checks._wrap import *

CXX = common.LLVM + "/bin/clang++"
TY = {"f": "float", "d": "double"}
PRED = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
SWAP = [0, 1, 4, 5, 2, 3, 6, 7, 8, 9, 12, 13, 10, 11, 14, 15]
NOSLP = ["-fno-slp-vectorize", "-fno-vectorize"]
FLAGS = ["--inst-fcmp", "--inst-fma", "--inst-cast"]


def vt(t, n):
    return "<%d x %s>" % (n, t) if n else t


class K:
    """kind: what must be logged. lanes 0 = scalar."""

    def __init__(self, name, kind, t, lanes, body, outbytes, op=None, free=False, elem=None, sim=None):
        self.name, self.kind, self.t, self.lanes, self.body, self.outbytes = name, kind, t, max(lanes, 1), body, outbytes
        self.op, self.free, self.elem, self.sim = op, free, elem or t, sim


def kernels():
    ks, decl = [], set()

    def add(name, kind, t, lanes, body, out, **kw):
        ks.append(K("k%d_%s" % (len(ks), name), kind, t, lanes, body, out, **kw))
    size = {"f": 4, "d": 8}
    # <1 x T>, odd and very wide vectors need not be instrumented
    for t, n, op in itertools.product("fd", (0, 2, 4, 8, 16, 1, 3, 5, 32), ("add", "sub", "mul", "div")):
        T = vt(TY[t], n)
        add("%s_%s%d" % (op, t, n), "arith", t, n,
            "%%x = load %s, ptr %%a, align 4\n%%y = load %s, ptr %%b, align 4\n%%r = f%s %s %%x, %%y\nstore %s %%r, ptr %%o, align 4" % (T, T, op, T, T),
            size[t] * max(n, 1), op=op + "_" + TY[t], free=n in (1, 3, 5, 32))
    for t, n, p in itertools.product("fd", (0, 2, 4, 8, 16, 1, 3), range(16)):
        T = vt(TY[t], n)
        add("cmp%s_%s%d" % (PRED[p], t, n), "cmp", t, n,
            "%%x = load %s, ptr %%a, align 4\n%%y = load %s, ptr %%b, align 4\n%%r = fcmp %s %s %%x, %%y\n%%z = zext %s %%r to %s\nstore %s %%z, ptr %%o, align 4"
            % (T, T, PRED[p], T, vt("i1", n), vt("i32", n), vt("i32", n)), 4 * max(n, 1), op=p, free=p in (0, 15) or n in (1, 3), elem="i")
    for t, p in itertools.product("fd", range(1, 15)):
        add("br%s_%s" % (PRED[p], t), "cmp", t, 0,
            "%%x = load %s, ptr %%a\n%%y = load %s, ptr %%b\n%%r = fcmp %s %s %%x, %%y\nbr i1 %%r, label %%L1, label %%L2\nL1:\nstore i32 1, ptr %%o\nret void\nL2:\nstore i32 0, ptr %%o"
            % (TY[t], TY[t], PRED[p], TY[t]), 4, op=p, elem="i")
    for t, n, p in itertools.product("fd", (0, 2, 4, 8), (2, 12)):
        T = vt(TY[t], n)
        add("sel%s_%s%d" % (PRED[p], t, n), "sel", t, n,
            "%%x = load %s, ptr %%a, align 4\n%%y = load %s, ptr %%b, align 4\n%%w = load %s, ptr %%c, align 4\n%%r = fcmp %s %s %%x, %%y\n%%z = select %s %%r, %s %%x, %s %%w\nstore %s %%z, ptr %%o, align 4"
            % (T, T, T, PRED[p], T, vt("i1", n), T, T, T), size[t] * max(n, 1), op=p)
    for i, t, n in itertools.product(("fma", "fmuladd"), "fd", (0, 2, 4, 8)):
        T = vt(TY[t], n)
        fn = "llvm.%s.%s%s" % (i, "v%d" % n if n else "", "f32" if t == "f" else "f64")
        decl.add("declare %s @%s(%s, %s, %s)" % (T, fn, T, T, T))
        add("%s_%s%d" % (i, t, n), i, t, n,
            "%%x = load %s, ptr %%a, align 4\n%%y = load %s, ptr %%b, align 4\n%%w = load %s, ptr %%c, align 4\n%%r = call %s @%s(%s %%x, %s %%y, %s %%w)\nstore %s %%r, ptr %%o, align 4"
            % (T, T, T, T, fn, T, T, T, T), size[t] * max(n, 1), op="fma_" + TY[t], free=n != 0)
    for n in (0, 2, 4):
        add("trunc%d" % n, "cast", "d", n, "%%x = load %s, ptr %%a, align 4\n%%r = fptrunc %s %%x to %s\nstore %s %%r, ptr %%o, align 4"
            % (vt("double", n), vt("double", n), vt("float", n), vt("float", n)), 4 * max(n, 1), op="cast", free=n != 0, elem="f")
    # constant, repeated operands and loops
    for t, op in itertools.product("fd", ("add", "sub", "mul", "div")):
        T, o = TY[t], op + "_" + TY[t]
        if op != "sub":      # clang turns x - 3 into x + -3
            add("%s_%s_kr" % (op, t), "arith2", t, 0, "%%x = load %s, ptr %%a\n%%r = f%s %s %%x, 3.0\nstore %s %%r, ptr %%o" % (T, op, T, T), size[t], op=o, sim="kr")
        add("%s_%s_kl" % (op, t), "arith2", t, 0, "%%x = load %s, ptr %%a\n%%r = f%s %s 3.0, %%x\nstore %s %%r, ptr %%o" % (T, op, T, T), size[t], op=o, sim="kl")
        if op in ("add", "mul"):
            add("%s_%s_same" % (op, t), "arith2", t, 0, "%%x = load %s, ptr %%a\n%%r = f%s %s %%x, %%x\nstore %s %%r, ptr %%o" % (T, op, T, T), size[t], op=o, sim="same")
        add("%s_%s_loop" % (op, t), "loop", t, 4,
            "%%s = load %s, ptr %%b\nbr label %%L\nL:\n%%i = phi i64 [0, %%0], [%%j, %%L]\n%%v = phi %s [%%s, %%0], [%%r, %%L]\n"
            "%%p = getelementptr %s, ptr %%a, i64 %%i\n%%x = load %s, ptr %%p\n%%r = f%s %s %%v, %%x\n%%j = add i64 %%i, 1\n"
            "%%e = icmp eq i64 %%j, 4\nbr i1 %%e, label %%X, label %%L\nX:\nstore %s %%r, ptr %%o" % (T, T, T, T, op, T, T), size[t], op=o)
    # everything else is left alone
    def other(name, t, lanes, body, out, elem):
        add(name, "none", t, lanes, body, out, elem=elem)
    for t, n in itertools.product("fd", (0, 2, 4)):
        T = vt(TY[t], n)
        s = size[t] * max(n, 1)
        other("fneg_%s%d" % (t, n), t, n, "%%x = load %s, ptr %%a, align 4\n%%r = fneg %s %%x\nstore %s %%r, ptr %%o, align 4" % (T, T, T), s, t)
        other("frem_%s%d" % (t, n), t, n, "%%x = load %s, ptr %%a, align 4\n%%y = load %s, ptr %%b, align 4\n%%r = frem %s %%x, %%y\nstore %s %%r, ptr %%o, align 4" % (T, T, T, T), s, t)
        for f in ("fabs", "sqrt", "floor"):
            fn = "llvm.%s.%s%s" % (f, "v%d" % n if n else "", "f32" if t == "f" else "f64")
            decl.add("declare %s @%s(%s)" % (T, fn, T))
            other("%s_%s%d" % (f, t, n), t, n, "%%x = load %s, ptr %%a, align 4\n%%r = call %s @%s(%s %%x)\nstore %s %%r, ptr %%o, align 4" % (T, T, fn, T, T), s, t)
        fn = "llvm.copysign.%s%s" % ("v%d" % n if n else "", "f32" if t == "f" else "f64")
        decl.add("declare %s @%s(%s, %s)" % (T, fn, T, T))
        other("copysign_%s%d" % (t, n), t, n, "%%x = load %s, ptr %%a, align 4\n%%y = load %s, ptr %%b, align 4\n%%r = call %s @%s(%s %%x, %s %%y)\nstore %s %%r, ptr %%o, align 4" % (T, T, T, fn, T, T, T), s, t)
    other("fpext", "f", 0, "%x = load float, ptr %a\n%r = fpext float %x to double\nstore double %r, ptr %o", 8, "d")
    other("itof", "f", 0, "%x = load i32, ptr %a\n%r = sitofp i32 %x to double\nstore double %r, ptr %o", 8, "d")
    other("utof", "d", 0, "%x = load i64, ptr %a\n%r = uitofp i64 %x to float\nstore float %r, ptr %o", 4, "f")
    other("iadd", "d", 0, "%x = load i64, ptr %a\n%y = load i64, ptr %b\n%r = add i64 %x, %y\nstore i64 %r, ptr %o", 8, "i")
    other("vimul", "f", 4, "%x = load <4 x i32>, ptr %a\n%y = load <4 x i32>, ptr %b\n%r = mul <4 x i32> %x, %y\nstore <4 x i32> %r, ptr %o", 16, "i")
    for op in ("add", "sub", "mul", "div"):
        other("x87" + op, "x", 0, "%%x = load x86_fp80, ptr %%a\n%%y = load x86_fp80, ptr %%b\n%%r = f%s x86_fp80 %%x, %%y\nstore x86_fp80 %%r, ptr %%o" % op, 10, "x")
        other("half" + op, "h", 0, "%%x = load half, ptr %%a\n%%y = load half, ptr %%b\n%%r = f%s half %%x, %%y\nstore half %%r, ptr %%o" % op, 2, "h")
    other("x87cmp", "x", 0, "%x = load x86_fp80, ptr %a\n%y = load x86_fp80, ptr %b\n%r = fcmp olt x86_fp80 %x, %y\n%z = zext i1 %r to i32\nstore i32 %z, ptr %o", 4, "i")
    other("x87tod", "x", 0, "%x = load x86_fp80, ptr %a\n%r = fptrunc x86_fp80 %x to double\nstore double %r, ptr %o", 8, "d")
    other("x87tof", "x", 0, "%x = load x86_fp80, ptr %a\n%r = fptrunc x86_fp80 %x to float\nstore float %r, ptr %o", 4, "f")
    other("ftohalf", "f", 0, "%x = load float, ptr %a\n%r = fptrunc float %x to half\nstore half %r, ptr %o", 2, "h")
    src = 'target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"\ntarget triple = "x86_64-pc-linux-gnu"\n'
    src += "\n".join(sorted(decl)) + "\n"
    for k in ks:
        src += "define void @%s(ptr noalias %%a, ptr noalias %%b, ptr noalias %%c, ptr noalias %%o) {\n%s\nret void\n}\n" % (k.name, k.body)
    table = "".join("void %s(void *, void *, void *, void *);\n" % k.name for k in ks) + "static struct K T[] = {\n" + "".join(
        "{%s, '%s', %d, %d},\n" % (k.name, k.t, k.lanes, k.outbytes) for k in ks) + "};\n"
    return ks, src, table


ESZ = {"f": 8, "d": 16, "i": 8, "x": 20, "h": 4}


def elems(hexs, e):
    """element values, lane 0 first (NaNs all alike)"""
    w = ESZ[e]
    out = []
    for i in range(len(hexs), 0, -w):
        v = int(hexs[max(0, i - w):i], 16)
        if e == "f" and (v & 0x7fffffff) > 0x7f800000 or e == "d" and (v & (2 ** 63 - 1)) > 0x7ff << 52:
            v = "nan"
        elif e == "h" and (v & 0x7fff) > 0x7c00:
            v = "nan"
        elif e == "x" and (v >> 64 & 0x7fff) == 0x7fff and v & (2 ** 63 - 1):
            v = "nan"
        out.append(v)
    return out


def enc(e, x):
    if e == "f":
        return struct.unpack("<I", struct.pack("<f", x))[0]
    if e == "d":
        return struct.unpack("<Q", struct.pack("<d", x))[0]
    return int(x)


def match(want, got, commut, extra=False):
    """Assigns to each wanted (key, operands) a logged event; None if impossible (or, unless extra, if
    events are left over)."""
    pool, idx = list(range(len(got))), []
    for w in want:
        for j in pool:
            g = got[j]
            if g == w or (commut and g[0] == w[0] and g[0].startswith(("add", "mul", "fma")) and [g[1][1], g[1][0]] + g[1][2:] == w[1]) or \
                    (commut and g[0].startswith("cmp") and g[0] == w[0] and g[1] == [SWAP[w[1][0]], w[1][2], w[1][1]]):
                pool.remove(j)
                idx.append(j)
                break
        else:
            return None
    return idx if extra or not pool else None


def kernel_part(prefix, tier, res, d, st):
    ks, src, table = kernels()
    with open(d + "/ops.ll", "w") as f:
        f.write(src)
    with open(d + "/ktable.h", "w") as f:
        f.write(table)
    rc, o, e = sh([CLANG, "-O1", "-w", "-I" + d, "-c", os.path.join(HERE, "prog/kmain.c"), "-o", d + "/kmain.o"])
    if rc:
        raise common.HarnessError(e)
    rc, o, e = sh([CLANG, "-O0", "-w", d + "/ops.ll", d + "/kmain.o", "-o", d + "/knative", "-lm"])
    if rc:
        raise common.HarnessError(e)
    rc, o, e = sh([d + "/knative"])
    native = o.splitlines()
    if rc or len(native) != 5 * len(ks):
        raise common.HarnessError("native kernels: %s %s" % (rc, o[-200:]))
    sub = [list(x) for r in range(4) for x in itertools.combinations(FLAGS, r)]
    confs = [(o, f) for o in (("-O0", "-O2") if tier == "quick" else ("-O0", "-O1", "-O2", "-O3")) for f in sub]
    confs += [("-O3", FLAGS), ("-O1", []), ("-O0", FLAGS + ["--ddebug"]), ("-O2", FLAGS + ["--inst-func"])]
    if tier == "thorough":
        confs += [(o, f + ["-march=native"]) for o in ("-O0", "-O2", "-O3") for f in ([], FLAGS)]

    def one(j):
        ci, (ol, fl) = j
        r = common.Result()
        w = d + "/k%d" % ci
        os.mkdir(w)
        common.shutil.copyfile(d + "/ops.ll", w + "/ops.ll")
        tag0 = "kernels compiled with %s" % " ".join([ol] + fl)
        if not compile_or_violation(prefix, [ol] + fl + ["-w", "ops.ll", d + "/kmain.o", "-lm", "-o", "k"], w, r, tag0):
            return r
        for tag in (0, 4, 5):
            rc, o, er, ev = run_prog(w + "/k", st["A"] + (" T=%d" % tag if tag else ""), w + "/log")
            out = o.splitlines()
            if rc or len(out) != len(native):
                r.violation("%s: the program ends with %s after %d of %d calls\n%s" % (tag0, rc, len(out), len(native), er[-500:]))
                continue
            groups, cur, n, stray = {}, None, 0, []
            for x in ev:
                if x[:2] == ["main", "call"]:
                    cur = (int(x[2]), int(x[3])) if x[2] != "-1" else None
                    if cur:
                        groups[cur] = []
                elif x[1].startswith(("add_", "sub_", "mul_", "div_", "fma_", "cast", "cmp_")):
                    key, ops = x[1], x[2:]
                    v = None
                    if key.startswith("cmp"):
                        ops = [int(ops[0])] + [int(q, 16) for q in ops[1:]]
                        v = tag & 1
                    else:
                        ops = [int(q, 16) for q in ops]
                        v = tag * 1024 + n
                        n += 1
                    if cur is None:
                        stray.append(x)
                    else:
                        groups[cur].append((key, ops, v))
                    r.transitions += 1
            if stray:
                r.violation("%s: operations logged outside the kernels: %s" % (tag0, stray[:3]))
            for line, nat in zip(out, native):
                k, s, a, b, c, res_ = line.split()
                kk, key = ks[int(k)], (int(k), int(s))
                r.states += 1
                m = judge(kk, tag, groups.get(key, []), a, b, c, res_, nat.split()[5], fl, ol != "-O0")
                if groups.get(key):
                    r.nontrivial += 1
                if m:
                    r.violation("%s, kernel %s, operand set %s, tag %d: %s" % (tag0, kk.name, s, tag, m))
        r.traces = r.states
        return r
    for r in common.pmap(one, list(enumerate(confs)), 8):
        merge(res, r)
    res.count("kernels", len(ks))
    res.count("kernel configurations", len(confs))


def merge(res, r):
    res.states += r.states
    res.transitions += r.transitions
    res.nontrivial += r.nontrivial
    res.traces += r.traces
    for v in r.viols:
        res.violation(v)


def judge(k, tag, ev, a, b, c, out, nat, fl, commut):
    A, Bv, C = [[int(x, 16) for x in v.split(",")] for v in (a, b, c)]
    o, n = elems(out, k.elem), elems(nat, k.elem)
    got = [[e[0], e[1]] for e in ev]
    kind = k.kind
    active = {"arith": True, "arith2": True, "loop": True, "cmp": "--inst-fcmp" in fl, "sel": "--inst-fcmp" in fl,
              "fma": "--inst-fma" in fl, "fmuladd": "--inst-fma" in fl, "cast": "--inst-cast" in fl, "none": False}[kind]
    if not active or (k.free and not ev):
        if ev:
            return "operations logged for an operation that is not selected: %s" % got[:3]
        if kind == "fmuladd":
            return None          # may or may not be fused
        return None if o == n else "result %s instead of %s" % (o, n)
    T = TY[k.t]
    three = enc(k.t, 3.0) if kind == "arith2" else 0
    if kind == "arith":
        want = [[k.op, [A[i], Bv[i]]] for i in range(k.lanes)]
    elif kind == "arith2":
        want = [[k.op, {"kr": [A[0], three], "kl": [three, A[0]], "same": [A[0], A[0]]}[k.sim]]]
    elif kind in ("cmp", "sel"):
        want = [["cmp_" + T, [k.op, A[i], Bv[i]]] for i in range(k.lanes)]
    elif kind in ("fma", "fmuladd"):
        want = [[k.op, [A[i], Bv[i], C[i]]] for i in range(k.lanes)]
    elif kind == "cast":
        want = [["cast", [A[i]]] for i in range(k.lanes)]
    elif kind == "loop":
        if not tag:
            return None if o == n and len(ev) == 4 and all(e[0] == k.op for e in got) else "result %s instead of %s, events %s" % (o, n, got)
        v, want = Bv[0], []
        for i in range(4):
            if len(ev) != 4:
                return "%d operations instead of 4" % len(ev)
            want.append([k.op, [v, A[i]]])
            v = enc(k.t, ev[i][2])
        if match(want, got, commut) is None or [x[1] if len(x) > 1 else 0 for x in want] and o != [v]:
            return "events %s, result %s; expected %s, %s" % (got, o, want, v)
        return None
    idx = match(want, got, commut)
    if idx is None:
        return "events %s, expected %s" % (got[:20], want[:20])
    if not tag:
        if kind == "fmuladd":
            return None
        return None if o == n else "result %s instead of %s" % (o, n)
    # the backend's results are the ones used
    for i in range(k.lanes):
        # lanes with equal operands may be served by either event
        cand = [ev[j][2] for j in range(len(ev)) if got[j][1] == got[idx[i]][1]]
        if kind == "sel":
            exp = [A[i] if x else C[i] for x in cand]
            exp = ["nan" if elems("%0*x" % (ESZ[k.t], x), k.t)[0] == "nan" else x for x in exp]
        else:
            exp = [enc(k.elem, x) for x in cand]
        if o[i] not in exp:
            return "lane %d is %s although the backend returned %s" % (i, o[i], exp)
    if kind not in ("cmp", "sel") and len(set(o)) != k.lanes:
        return "lanes share a result: %s" % o
    return None


# ---------------------------------------------------------------- expression trees
def trees(n, first):
    """all binary trees with n operations; leaves numbered from first"""
    if n == 0:
        yield first
        return
    for l in range(n):
        for op in "+-*/":
            for x in trees(l, first):
                for y in trees(n - 1 - l, first + l + 1):
                    yield (op, x, y)


LEAF = "abcd"
NAME = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
REL = {"<": 4, "<=": 5, ">": 2, ">=": 3, "==": 1, "!=": 14}


def ctext(t):
    return LEAF[t] if isinstance(t, int) else "(%s %s %s)" % (ctext(t[1]), t[0], ctext(t[2]))


def ftype(t, kind):
    if kind in "fd":
        return kind
    if isinstance(t, int):
        return "fdfd"[t]
    return "d" if "d" in (ftype(t[1], kind), ftype(t[2], kind)) else "f"


def rf(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def evalt(t, kind, leaves, ev):
    if isinstance(t, int):
        return leaves[t]
    x, y = evalt(t[1], kind, leaves, ev), evalt(t[2], kind, leaves, ev)
    ty = ftype(t, kind)
    ev.append([NAME[t[0]] + "_" + TY[ty], [enc(ty, x), enc(ty, y)]])
    v = x + y if t[0] == "+" else x - y if t[0] == "-" else x * y if t[0] == "*" else x / y
    return rf(v) if ty == "f" else v


def canon(t, kind):
    if isinstance(t, int):
        return LEAF[t]
    x, y = canon(t[1], kind), canon(t[2], kind)
    if t[0] in "+*" and y < x:
        x, y = y, x
    return "%s_%s(%s,%s)" % (NAME[t[0]], TY[ftype(t, kind)], x, y)


def expr_part(prefix, tier, res, d, st):
    ts = [t for n in (1, 2, 3) for t in trees(n, 0)]
    fns = [(t, k) for k in "fdm" for t in ts]
    rels = [((r, ("-", 0, 1), (o, 2, 3)), k) for k in "fd" for r in REL for o in "+*"]
    sig = {"f": "float %s(float a, float b, float c, float d)", "d": "double %s(double a, double b, double c, double d)",
           "m": "float %s(float a, double b, float c, double d)"}
    with open(d + "/exprs.c", "w") as f:
        for i, (t, k) in enumerate(fns):
            f.write("__attribute__((noinline)) " + sig[k] % ("e%d" % i) + " { return %s; }\n" % ctext(t))
        for i, (t, k) in enumerate(rels):
            f.write("__attribute__((noinline)) int r%d" % i + (sig[k] % "")[(sig[k] % "").index("("):] + " { return %s; }\n" % ctext(t))
    SETS = [[1.5, -2.25, 3.125, 0.75], [0.5, 8.25, -0.3125, 17.5]]
    with open(d + "/emain.c", "w") as f:
        f.write("#include <fcntl.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <unistd.h>\nstatic int lg = -1;\n"
                "static void mark(int k, int s) { char b[64]; int n = snprintf(b, sizeof b, \"main\\tcall\\t%d\\t%d\\n\", k, s); if (lg >= 0 && write(lg, b, n) != n) _exit(98); }\n")
        for i, (t, k) in enumerate(fns):
            f.write(sig[k] % ("e%d" % i) + ";\n")
        for i, (t, k) in enumerate(rels):
            f.write("int r%d" % i + (sig[k] % "")[(sig[k] % "").index("("):] + ";\n")
        f.write("int main(void) { const char *l = getenv(\"STUB_LOG\"); if (l) lg = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);\n")
        for s, v in enumerate(SETS):
            for i in range(len(fns)):
                f.write("mark(%d,%d); printf(\"%%a\\n\", (double)e%d(%s));\n" % (i, s, i, ",".join(map(str, v))))
            for i in range(len(rels)):
                f.write("mark(%d,%d); printf(\"%%d\\n\", r%d(%s));\n" % (len(fns) + i, s, i, ",".join(map(str, v))))
        f.write("return 0; }\n")
    rc, o, e = sh([CLANG, "-O0", "-c", d + "/emain.c", "-o", d + "/emain.o"])
    if rc:
        raise common.HarnessError(e)
    if tier == "quick":
        confs = [("-O0", FLAGS), ("-O1", []), ("-O2", FLAGS + NOSLP), ("-O2", FLAGS), ("-O3", [])]
    else:
        confs = [(o, f) for o in ("-O0", "-O1", "-O2", "-O3", "-Os") for f in ([], FLAGS, FLAGS + NOSLP)] + [("-O3", FLAGS + ["-march=native"]), ("-O0", FLAGS + ["--ddebug"]), ("-O2", FLAGS + ["--inst-func"])]

    def one(j):
        ci, (ol, fl) = j
        r = common.Result()
        w = d + "/e%d" % ci
        os.mkdir(w)
        common.shutil.copyfile(d + "/exprs.c", w + "/exprs.c")
        tag0 = "expressions compiled with %s -ffp-contract=off" % " ".join([ol] + fl)
        if not compile_or_violation(prefix, [ol] + fl + ["-ffp-contract=off", "exprs.c", d + "/emain.o", "-o", "e"], w, r, tag0):
            return r
        commut = ol != "-O0"
        # a vectorised expression may compute lanes nobody uses
        extra = ol not in ("-O0", "-O1") and not set(NOSLP) <= set(fl)
        for tag in (0, 4):
            rc, o, er, ev = run_prog(w + "/e", st["A"] + (" T=%d" % tag if tag else ""), w + "/log")
            out = o.splitlines()
            if rc or len(out) != 2 * (len(fns) + len(rels)):
                r.violation("%s: the program ends with %s after %d results\n%s" % (tag0, rc, len(out), er[-500:]))
                continue
            calls, n = [], 0
            for x in ev:
                if x[:2] == ["main", "call"]:
                    calls.append([])
                elif x[0].startswith("A.") and x[1] not in ("pre_init", "cli", "init", "finalize", "enter", "exit"):
                    ops = [int(x[2])] + [int(q, 16) for q in x[3:]] if x[1].startswith("cmp") else [int(q, 16) for q in x[2:]]
                    calls[-1].append([x[1], ops, tag * 1024 + n])
                    n += not x[1].startswith("cmp")
                    r.transitions += 1
            pos = 0
            for s, lv in enumerate(SETS):
                for t, k in fns + rels:
                    got, line = calls[pos], out[pos]
                    pos += 1
                    r.states += 1
                    r.nontrivial += 1
                    isrel = not isinstance(t, int) and t[0] in REL
                    m = judge_expr(t, k, isrel, lv, got, line, tag, fl, commut, extra)
                    if m:
                        r.violation("%s: %s %s with a,b,c,d=%s, tag %d: %s" % (tag0, {"f": "float", "d": "double", "m": "float/double mix"}[k], ctext(t), lv, tag, m))
        r.traces = r.states
        return r
    for r in common.pmap(one, list(enumerate(confs)), 8):
        merge(res, r)
    res.count("expressions", len(fns) + len(rels))


def judge_expr(t, k, isrel, lv, got, line, tag, fl, commut, extra):
    if not tag:
        want = []
        if isrel:
            x, y = evalt(t[1], k, lv, want), evalt(t[2], k, lv, want)
            v = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[t[0]]
            if "--inst-fcmp" in fl:
                want.append(["cmp_" + TY[k], [REL[t[0]], enc(k, x), enc(k, y)]])
            ok = int(line) == int(v)
        else:
            v = evalt(t, k, lv, want)
            if k == "m" and ftype(t, k) == "d":
                if "--inst-cast" in fl:
                    want.append(["cast", [enc("d", v)]])
                v = rf(v)
            ok = float.fromhex(line) == v
        if not ok:
            return "result %s instead of %s" % (line, v)
        if match(want, [g[:2] for g in got], commut, extra) is None and not (isrel and match_rel(want, got, commut, extra)):
            return "events %s, expected %s" % ([g[:2] for g in got], want)
        return None
    # results are tags: rebuild the expression that was computed from the events
    sym = {}
    for i, v in enumerate(lv):
        sym[("f", enc("f", v))] = sym[("d", enc("d", v))] = LEAF[i]
    rel = None
    for key, ops, tv in got:
        if key.startswith("cmp"):
            e = key[4]
            rel = (ops[0], sym.get((e, ops[1]), "?%x" % ops[1]), sym.get((e, ops[2]), "?%x" % ops[2]))
            continue
        if key == "cast":
            s = "cast(%s)" % sym.get(("d", ops[0]), "?%x" % ops[0])
        else:
            e = key.split("_")[1][0]
            a = [sym.get((e, x), "?%x" % x) for x in ops]
            if key[:3] in ("add", "mul"):
                a.sort()
            s = "%s(%s)" % (key, ",".join(a))
        sym[("f", enc("f", tv))] = sym[("d", enc("d", tv))] = s
    if isrel:
        if "--inst-fcmp" not in fl:
            return None
        w = (REL[t[0]], canon(t[1], k), canon(t[2], k))
        ok = rel == w or rel is not None and commut and (SWAP[rel[0]], rel[2], rel[1]) == w
        # the branch may have been inverted
        return None if ok and int(line) == (tag & 1) or (commut and rel is not None and set(rel[1:]) == set(w[1:])) else "computed %s, expected %s" % (rel, w)
    x = float.fromhex(line)
    s = sym.get(("f" if k != "d" else "d", enc("f" if k != "d" else "d", x)), "?" + line)
    w = canon(t, k)
    if k == "m" and ftype(t, k) == "d" and "--inst-cast" in fl:
        w = "cast(%s)" % w
    return None if s == w else "the result is computed as %s, expected %s" % (s, w)


def match_rel(want, got, commut, extra):
    """optimised code may test the complementary relation"""
    if not commut:
        return False
    w, g = want[:-1], [x[:2] for x in got if not x[0].startswith("cmp")]
    c = [x for x in got if x[0].startswith("cmp")]
    if not want[-1][0].startswith("cmp"):
        return False
    p, x, y = want[-1][1]
    return match(w, g, commut, extra) is not None and len(c) == 1 and c[0][1] in ([p, x, y], [15 - p, x, y], [SWAP[p], y, x], [SWAP[15 - p], y, x])


# ---------------------------------------------------------------- whole programs
def whole_part(prefix, tier, res, d, st):
    src = os.path.join(HERE, "prog/whole")
    confs = []
    for p in sorted(os.listdir(src)):
        levels = ("-O0", "-O1", "-O2", "-O3")
        for o in levels:
            sets = [[]] if tier == "quick" and o in ("-O1", "-O3") else [[], FLAGS]
            for fl in sets:
                confs.append((p, o, fl))
        confs.append((p, "-O3", ["-march=native"] + FLAGS))
        confs.append((p, "-O2", FLAGS + ["--ddebug"]))
        confs.append((p, "-O3", ["-march=native", "-mno-avx512f"] + FLAGS))
        confs.append((p, "-O3", ["-march=native", "-mno-avx"]))

    def one(j):
        ci, (p, ol, fl) = j
        r = common.Result()
        w = d + "/w%d" % ci
        os.mkdir(w)
        common.shutil.copyfile(os.path.join(src, p), w + "/" + p)
        cpp = p.endswith(".cpp")
        base = [ol, "-ffp-contract=off", "-w", p, "-lm"] + [x for x in fl if x.startswith("-m")]
        rc, o, e = sh([CXX if cpp else CLANG] + base + ["-o", "n"] + (["-lpthread"] if cpp else []), cwd=w)
        if rc:
            raise common.HarnessError(e)
        rc, want, e = sh([w + "/n"])
        if rc:
            raise common.HarnessError("native %s fails" % p)
        t = "%s compiled %s the host's full instruction set, with %s" % (p, "with" if "-march=native" in fl and not any(x.startswith("-mno") for x in fl) else "without", " ".join([ol] + fl))
        extra = [x for x in fl if not x.startswith("-m")]
        if not compile_or_violation(prefix, extra + base + ["-o", "v"] + (["-lpthread", "-lstdc++"] if cpp else []), w, r, t, "verificarlo-c++" if cpp else "verificarlo-c"):
            return r
        for be in ([st["A"]] if ol != "-O2" else [st["A"], "libinterflop_ieee.so", "libinterflop_ieee.so --count-op", "libinterflop_ieee.so;libinterflop_vprec.so --mode=ieee", "libinterflop_ieee.so;libinterflop_mca.so --mode=ieee", "libinterflop_ieee.so;libinterflop_vprec.so"]):
            env = {"VFC_BACKENDS_LOGGER": "False"}
            rc, o, er, ev = run_prog(w + "/v", be, w + "/log", env=env)
            r.states += 1
            r.traces += 1
            r.nontrivial += 1
            r.transitions += len(ev)
            if rc or o != want:
                diff = [(a, b) for a, b in zip(o.split(), want.split()) if a != b][:3]
                r.violation("%s under %s: status %s, output differs from the uninstrumented program: %s\n%s" % (t, be.replace(d, "."), rc, diff, er[-300:]))
        return r
    for r in common.pmap(one, list(enumerate(confs)), 8):
        merge(res, r)
    res.count("whole-program configurations", len(confs))


def run(prefix, tier, res):
    with common.Scratch() as d:
        st = stub(prefix, d, "A")
        kernel_part(prefix, tier, res, d, st)
        expr_part(prefix, tier, res, d, st)
        whole_part(prefix, tier, res, d, st)
    res.bounds = ("every operation/predicate/intrinsic x type x 1-32 lanes x operand shape as a kernel, every option subset, "
                  "O0/O2 (thorough O0-O3, -march=native); all expression trees with 1-3 operations over float, double and "
                  "mixed operands at O0-O3; 4 whole programs; tagged results rebuild the computed expression")
    res.sample({"kernel": "fadd <4 x double>, T=4", "events": "4 x add_double(a_i, b_i)", "result": "lanes 4096..4099"})
    res.sample({"expression": "((a - b) * (c / d))", "rebuilt": "mul_double(div_double(c,d),sub_double(a,b))"})
