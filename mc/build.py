#!/usr/bin/env python3
"""Builds what the checks need from /repo's *current working tree*.

The result is an install-like prefix in /verif/.cache/<content hash>/ (ignored
by git).  The recipe is the one the project's own Makefile.am's expand to here
(gcc -g -O2 -fPIC, one shared object per backend, ...), run without autotools
so that a check can afford it on every change.  When it fails (the layout of
the sources changed, say), the project's own autogen/configure/make/make
install is run instead, in a scratch copy.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.realpath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"
IGNORED_TOP = {"_build", ".git", "tests", "doc", "__pycache__"}


class BuildError(Exception):
    pass


def source_files():
    out = []
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == ".":
            dirs[:] = [x for x in dirs if x not in IGNORED_TOP]
        dirs[:] = sorted(x for x in dirs if x not in
                         ("__pycache__", ".git", "autom4te.cache", ".deps", ".libs"))
        for f in sorted(files):
            if f.endswith((".o", ".lo", ".la", ".so", ".pyc", ".a")):
                continue
            out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        p = os.path.join(REPO, f)
        h.update(f.encode() + b"\0")
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
        else:
            try:
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    with open(__file__, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


def copy_headers(inst):
    s = os.path.join(REPO, "src/interflop-stdlib")
    inc = os.path.join(inst, "include/interflop")
    for d, dirs, files in os.walk(s):
        dirs[:] = [x for x in dirs if x not in ("tests", "m4")]
        for f in files:
            if f.endswith(".h"):
                dst = os.path.join(inc, os.path.relpath(os.path.join(d, f), s))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(d, f), dst)
    b = os.path.join(REPO, "src/backends")
    for be in os.listdir(b):
        p = os.path.join(b, be)
        if not be.startswith("interflop-backend-"):
            continue
        for d, dirs, files in os.walk(p):
            for f in files:
                if f.endswith(".h"):
                    dst = os.path.join(inc, os.path.relpath(os.path.join(d, f), p))
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copyfile(os.path.join(d, f), dst)
    shutil.copyfile(os.path.join(REPO, "src/common/vfc_probes.h"),
                    os.path.join(inst, "include/vfc_probes.h"))


def soname_links(lib, name):
    os.replace(os.path.join(lib, name + ".so"), os.path.join(lib, name + ".so.0"))
    os.symlink(name + ".so.0", os.path.join(lib, name + ".so"))


def shared(inst, obj, name, srcs, flags=(), libs=(), deps=()):
    lib = os.path.join(inst, "lib")
    out = os.path.join(lib, name + ".so")
    cmd = (["gcc", "-shared", "-fPIC", "-g", "-O2", "-fno-stack-protector",
            "-I" + os.path.join(inst, "include")] + list(flags) +
           [os.path.join(REPO, s) for s in srcs] +
           ["-Wl,-rpath," + lib, "-L" + lib] + ["-l" + d for d in deps] + list(libs) +
           ["-Wl,-soname," + name + ".so.0", "-o", out])
    run(cmd)
    soname_links(lib, name)


def build_fast(inst):
    lib = os.path.join(inst, "lib")
    os.makedirs(lib)
    os.makedirs(os.path.join(inst, "bin"))
    os.makedirs(os.path.join(inst, "include"))
    copy_headers(inst)
    S = "src/interflop-stdlib/"
    I = ["-I" + os.path.join(REPO, "src/interflop-stdlib")]
    ex = ThreadPoolExecutor(8)

    def passlib(name, src):
        out = os.path.join(lib, name + ".so")
        pdir = os.path.join(inst, "passes", "src", "x")
        os.makedirs(pdir, exist_ok=True)
        shutil.copyfile(os.path.join(HERE, "config.h"), os.path.join(inst, "passes", "config.h"))
        # the source includes "../../config.h" relative to itself
        srcdir = os.path.dirname(os.path.join(REPO, src))
        for f in os.listdir(srcdir):
            if f.endswith((".cpp", ".h", ".hpp")):
                shutil.copyfile(os.path.join(srcdir, f), os.path.join(pdir, f))
        run(["g++", "-shared", "-fPIC", "-DHAVE_CONFIG_H", "-I" + LLVM + "/include",
             "-std=c++17", "-fno-exceptions", "-funwind-tables", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
             "-O1", os.path.join(pdir, os.path.basename(src)),
             "-Wl,-soname," + name + ".so.0", "-o", out])
        soname_links(lib, name)

    fpass = [ex.submit(passlib, "libvfcinstrument", "src/libvfcinstrument/libVFCInstrument.cpp"),
             ex.submit(passlib, "libvfcfuncinstrument",
                       "src/libvfcfuncinstrument/libVFCFuncInstrument.cpp")]
    f = [
        ex.submit(shared, inst, None, "libinterflop_stdlib", [S + "interflop_stdlib.c"], I),
        ex.submit(shared, inst, None, "libinterflop_rng",
                  [S + "rng/splitmix64.c", S + "rng/xoroshiro128.c", S + "rng/vfc_rng.c"], I),
        ex.submit(shared, inst, None, "libinterflop_fma", [S + "fma/interflop_fma.c"],
                  I + ["-DHAS_QUADMATH"], ["-lm", "-lquadmath"]),
        ex.submit(shared, inst, None, "libinterflop_hashmap", [S + "hashmap/vfc_hashmap.c"], I),
        ex.submit(shared, inst, None, "libinterflop_logger", [S + "iostream/logger.c"],
                  I + ["-D__INTERFLOP_BOOTSTRAP__"]),
    ]
    for x in f:
        x.result()
    B = "src/backends/interflop-backend-"
    base = ["interflop_fma", "interflop_logger", "interflop_stdlib"]
    rng = ["interflop_rng"] + base
    ts = ["-DRNG_THREAD_SAFE"]
    f = [
        ex.submit(shared, inst, None, "libinterflop_ieee",
                  [B + "ieee/interflop_ieee.c", B + "ieee/common/printf_specifier.c"], [], [], base),
        ex.submit(shared, inst, None, "libinterflop_vprec",
                  [B + "vprec/interflop_vprec.c", B + "vprec/common/vprec_tools.c",
                   B + "vprec/interflop_vprec_function_instrumentation.c"], [], [],
                  ["interflop_hashmap"] + base),
        ex.submit(shared, inst, None, "libvfc_probes", ["src/common/vfc_probes.c"], [], [],
                  ["interflop_hashmap"]),
    ]
    for be, so, src in [("mcaquad", "mca", "interflop_mca.c"), ("mcaint", "mca_int", "interflop_mca_int.c"),
                        ("bitmask", "bitmask", "interflop_bitmask.c"),
                        ("cancellation", "cancellation", "interflop_cancellation.c")]:
        f.append(ex.submit(shared, inst, None, "libinterflop_" + so, [B + be + "/" + src], ts, [], rng))
    for x in f:
        x.result()

    # the wrapper
    def sub(text):
        ver = (re.findall(r"[0-9][0-9.]*", open(os.path.join(REPO, "VERSION")).read()) or ["0"])[0]
        for k, v in {
            "PACKAGE_STRING": "verificarlo " + ver, "INTERFLOP_PREFIX": inst,
            "INTERFLOP_INCLUDEDIR": inst + "/include", "INTERFLOP_LIBDIR": inst + "/lib",
            "LLVM_BINDIR": LLVM + "/bin", "LLVM_VERSION_MAJOR": "18",
            "CLANG_PATH": LLVM + "/bin/clang", "CLANGXX_PATH": LLVM + "/bin/clang++",
            "LLVM_LINK_PATH": LLVM + "/bin/llvm-link", "FLANG_PATH": LLVM + "/bin/flang-new",
            "MARCH_FLAG": "-march=native",
        }.items():
            text = text.replace("@%s@" % k, v)
        if re.search(r"@[A-Z][A-Z_]+@", text):
            raise BuildError("unknown configure substitution")
        return text.replace("%LIBDIR%", inst + "/lib").replace("%INCLUDEDIR%", inst + "/include")

    w = os.path.join(REPO, "src/vfcwrapper")
    am = open(os.path.join(w, "Makefile.am")).read()
    if "@cat main.c funcinstr.c >> vfcwrapper.c" not in am:
        raise BuildError("unexpected recipe for vfcwrapper.c")
    main = sub(open(os.path.join(w, "main.c.in")).read())
    with open(os.path.join(inst, "include/vfcwrapper.c"), "w") as fh:
        fh.write("// vfcwrapper.c is automatically generated\n// do not modify this file directly\n")
        fh.write(main + open(os.path.join(w, "funcinstr.c")).read())
    for fn in os.listdir(w):   # helpers the wrapper may include
        if fn.endswith(".h") or fn == "hashset.c":
            shutil.copyfile(os.path.join(w, fn), os.path.join(inst, "include", fn))
    with open(os.path.join(inst, "bin/verificarlo"), "w") as fh:
        fh.write(sub(open(os.path.join(REPO, "verificarlo.in.in")).read()))
    os.chmod(os.path.join(inst, "bin/verificarlo"), 0o755)
    for s in ("verificarlo-c", "verificarlo-c++", "verificarlo-f"):
        shutil.copy(os.path.join(REPO, s), os.path.join(inst, "bin", s))
    for x in fpass:
        x.result()


def build_autotools(inst):
    scratch = inst + ".src"
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        for f in source_files():
            d = os.path.join(scratch, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), d, follow_symlinks=False)
        shutil.copytree(os.path.join(REPO, "tests"), os.path.join(scratch, "tests"), symlinks=True)
        if os.path.isdir(os.path.join(REPO, "doc")):
            shutil.copytree(os.path.join(REPO, "doc"), os.path.join(scratch, "doc"), symlinks=True)
        os.makedirs(os.path.join(scratch, "src/backends/prism"), exist_ok=True)
        env = dict(os.environ, PATH=LLVM + "/bin:" + os.environ["PATH"])
        run(["./autogen.sh"], cwd=scratch, env=env)
        run(["./configure", "--prefix=" + inst, "--with-llvm=" + LLVM, "--with-flang=" + LLVM + "/bin",
             "--without-prism"], cwd=scratch, env=env)
        run(["make", "-s", "-C", "src/interflop-stdlib", "-j8", "install"], cwd=scratch, env=env)
        run(["make", "-s", "-j8"], cwd=scratch, env=env)
        run(["make", "-s", "install"], cwd=scratch, env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def copy_tools(inst):
    """The Python package, as the installation lays it out (verificarlo.*)."""
    dst = os.path.join(inst, "py", "verificarlo")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src/tools"), dst,
                    ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    if not os.path.exists(os.path.join(dst, "__init__.py")):
        open(os.path.join(dst, "__init__.py"), "w").close()


def prune(keep):
    try:
        ents = [e for e in os.listdir(CACHE) if re.fullmatch(r"[0-9a-f]{16}", e) and e != keep]
    except OSError:
        return
    ents.sort(key=lambda e: os.path.getmtime(os.path.join(CACHE, e)))
    for e in ents[:-2]:
        shutil.rmtree(os.path.join(CACHE, e), ignore_errors=True)


def ensure(verbose=False):
    """Returns the install prefix of the current tree (building it if needed)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        inst = os.path.join(CACHE, h)
        if os.path.exists(os.path.join(inst, "ok")):
            os.utime(inst)
            return inst
        t0 = time.time()
        shutil.rmtree(inst, ignore_errors=True)
        try:
            build_fast(inst)
        except (BuildError, OSError) as e:
            sys.stderr.write("fast build failed, using the project's own build: %s\n" % e)
            shutil.rmtree(inst, ignore_errors=True)
            build_autotools(inst)
        copy_tools(inst)
        open(os.path.join(inst, "ok"), "w").close()
        prune(h)
        if verbose:
            print("built %s in %.1f s" % (inst, time.time() - t0))
        return inst


if __name__ == "__main__":
    print(ensure(True))
