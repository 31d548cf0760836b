"""Programs compiled by the built verificarlo, run under recording backends."""
import hashlib, os, shutil, subprocess
import common
from common import sh, HERE

CLANG = common.LLVM + "/bin/clang"


def stub(prefix, d, names="ABC"):
    """Compiles the recording backend against the tree's own interface; returns {name: path}."""
    so = os.path.join(d, "stub.so")
    rc, o, e = sh(["gcc", "-shared", "-fPIC", "-O1", "-I" + prefix + "/include", os.path.join(HERE, "stub.c"),
                   "-o", so, "-ldl", "-lm"])
    if rc:
        raise common.HarnessError("stub: " + e)
    out = {}
    for n in names:
        p = os.path.join(d, n + ".so")
        shutil.copyfile(so, p)
        os.chmod(p, 0o755)
        out[n] = p
    return out


def path_env(prefix):
    return {"PATH": prefix + "/bin:" + os.environ["PATH"]}


def vfc(prefix, args, cwd, tool="verificarlo-c", timeout=180):
    """Runs the compiler driver; returns (rc, stdout, stderr)."""
    return sh([os.path.join(prefix, "bin", tool)] + args, cwd=cwd, env=path_env(prefix), timeout=timeout)


def compile_or_violation(prefix, args, cwd, res, what, tool="verificarlo-c"):
    rc, o, e = vfc(prefix, args, cwd, tool)
    if rc:
        res.violation("%s: %s %s fails (%s)\n%s" % (what, tool, " ".join(args), rc, (o + e)[-1500:]))
        return False
    return True


def run_prog(exe, backends, log, args=(), env=None, timeout=60, unset=False):
    """Runs an instrumented program; returns (rc, stdout, stderr, events)."""
    try:
        os.unlink(log)
    except OSError:
        pass
    e = {"STUB_LOG": log}
    if backends is not None:
        e["VFC_BACKENDS"] = backends
    if env:
        e.update(env)
    rc, o, er = sh([exe] + list(args), env=e, timeout=timeout)
    ev = []
    try:
        with open(log, errors="surrogateescape") as f:
            ev = [l.rstrip("\n").split("\t") for l in f]
    except OSError:
        pass
    return rc, o, er, ev
