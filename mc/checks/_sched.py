"""Builds the run time with a scheduling point at every memory access and runs mc/sched.cpp."""
import fcntl, glob, os, shutil, subprocess, tempfile
import common, build

FLAGS = ("-std=c++17", "-O2", "-rdynamic", "-pthread")


def _cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise common.HarnessError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))


def libs(prefix):
    """The libraries of the current tree, with every shared access a scheduling point."""
    d = os.path.join(prefix, "tsan")
    with open(os.path.join(prefix, "tsan.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        S = os.path.join(build.REPO, "src/interflop-stdlib")
        B = os.path.join(build.REPO, "src/backends/interflop-backend-")
        inc = ["-I" + S, "-I" + os.path.join(prefix, "include")]

        def so(name, srcs, flags=(), lib=(), cc="gcc"):
            objs = []
            for i, s in enumerate(srcs):
                o = os.path.join(d, "%s.%d.o" % (name, i))
                _cc([cc, "-c", "-fPIC", "-g", "-O1", "-fsanitize=thread"] + list(flags) + inc + [s, "-o", o])
                objs.append(o)
            _cc(["gcc", "-shared", "-Wl,-soname," + name + ".so"] + objs +
                ["-L" + d, "-Wl,-rpath," + d] + list(lib) + ["-o", os.path.join(d, name + ".so")])
            for o in objs:
                os.unlink(o)

        def srcs(p):
            out = []
            for r, ds, fs in os.walk(p):
                ds[:] = [x for x in ds if x not in ("tests", "test")]
                out += [os.path.join(r, f) for f in sorted(fs) if f.endswith(".c")]
            return sorted(out)

        so("libinterflop_stdlib", sorted(glob.glob(S + "/*.c")))
        common.pmap(lambda a: so(*a), [
            ("libinterflop_rng", srcs(S + "/rng")),
            ("libinterflop_fma", srcs(S + "/fma"), ["-DHAS_QUADMATH"], ["-lm", "-lquadmath"]),
            ("libinterflop_hashmap", srcs(S + "/hashmap")),
            ("libinterflop_logger", srcs(S + "/iostream"), ["-D__INTERFLOP_BOOTSTRAP__"])])
        base = ["-linterflop_" + x for x in ("rng", "hashmap", "fma", "logger", "stdlib")] + ["-lm"]
        jobs = [("libinterflop_" + n, srcs(B + be), ["-DRNG_THREAD_SAFE"], base) for be, n in
                (("ieee", "ieee"), ("vprec", "vprec"), ("mcaquad", "mca"), ("mcaint", "mca_int"),
                 ("bitmask", "bitmask"), ("cancellation", "cancellation"))]
        clang = common.LLVM + "/bin/clang"
        w = os.path.join(prefix, "include/vfcwrapper.c")
        wf = ["-Wno-varargs", "-Wno-everything", "-DINST_FCMP", "-DINST_FMA", "-DINST_CAST"]
        jobs += [("wrapper", [w], wf, base + ["-ldl"], clang), ("wrapper_plain", [w], wf[:2], base + ["-ldl"], clang), ("wrapper_dd", [w], wf + ["-DDDEBUG"], base + ["-ldl"], clang)]
        common.pmap(lambda a: so(*a), jobs)
        open(os.path.join(d, "ok"), "w").close()
    return d


def run(mode, prefix, tier, res, nshards=48, what=""):
    d = libs(prefix)
    b = common.compile_cxx("sched.cpp", FLAGS, ("-ldl",), deps=("sched_report.hpp",))
    w = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        common.run_sharded(lambda i: [b, mode, d, str(i), str(nshards), tier, w], res, nshards=nshards, workers=8,
                           timeout=850 if tier == "quick" else 7200, what=what)
    finally:
        shutil.rmtree(w, ignore_errors=True)
