"""Shared by the checks: scratch space, harness compilation, sharded runs, results."""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.realpath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"
NPROC = 8

# the environment is part of the configuration the checks decide: start clean
for _k in list(os.environ):
    if _k.startswith(("VFC_", "INTERFLOP_", "DD_")) or _k in (
            "LD_LIBRARY_PATH", "LIBRARY_PATH", "CPATH", "C_INCLUDE_PATH", "CFLAGS", "CXXFLAGS",
            "CPPFLAGS", "LDFLAGS", "LD_PRELOAD", "VERIFICARLO_TEST", "PYTHONPATH"):
        del os.environ[_k]
os.environ["LC_ALL"] = "C.UTF-8"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


class HarnessError(Exception):
    """The check itself cannot answer."""


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.nontrivial = 0
        self.traces = 0
        self.viols = []          # strings; the first line is the description
        self.nviol = 0
        self.samples = []
        self.counters = {}
        self.assumptions = []
        self.bounds = ""
        self.exhaustive = True
        self.known = []          # (key, what) pairs of known_findings.txt
        self.seen = set()

    def violation(self, msg):
        for k, what in self.known:
            if k in msg:
                self.seen.add(what)
                return
        self.nviol += 1
        if len(self.viols) < 40:
            self.viols.append(msg)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def merge(self, d):
        self.states += d.get("states", 0)
        self.transitions += d.get("transitions", 0)
        self.nontrivial += d.get("nontrivial", 0)
        self.traces += d.get("traces", 0)
        for v in d.get("viols", []):
            self.violation(v)
        for s in d.get("samples", []):
            self.sample(s)
        for k, v in d.get("counters", {}).items():
            self.count(k, v)


def compile_cxx(src, flags=(), libs=(), lang="g++", deps=()):
    """Compiles /verif/mc/<src> once per content; returns the binary."""
    h = hashlib.sha256()
    for f in [src] + list(deps):
        with open(os.path.join(HERE, f), "rb") as fh:
            h.update(fh.read())
    h.update(repr((flags, libs, lang)).encode())
    out = os.path.join(CACHE, "bin", os.path.basename(src).split(".")[0] + "-" + h.hexdigest()[:16])
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run([lang] + list(flags) + [os.path.join(HERE, src), "-o", tmp] + list(libs),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise HarnessError("cannot compile %s:\n%s" % (src, r.stdout.decode()[-3000:]))
    os.replace(tmp, out)
    return out


class Scratch:
    """A scratch directory that is removed afterwards."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vfcmc.")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def sh(cmd, timeout=120, cwd=None, env=None, input=None):
    """Runs a command; returns (rc, stdout, stderr) as text; rc is negative for a signal,
    'timeout' when it did not end."""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e,
                         stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         start_new_session=True)
    try:
        o, er = p.communicate(input.encode() if input is not None else None, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        rc = "timeout"
    return rc, o.decode(errors="replace"), er.decode(errors="replace")


def run_sharded(cmd_of_shard, res, nshards=NPROC, timeout=800, what="", workers=None):
    """Runs the shards of a harness that prints one JSON report each and merges them.
    A death by signal inside the code under test (reproduced once) is a violation."""
    def one(i):
        cmd = cmd_of_shard(i)
        rc, o, e = sh(cmd, timeout=timeout)
        if rc not in (0, 3):
            rc2, o, e = sh(cmd, timeout=timeout)
            if rc2 == 0:
                rc = 0
            elif rc2 == "timeout":
                raise HarnessError("timeout: " + " ".join(cmd))
        return cmd, rc, o, e
    with ThreadPoolExecutor(workers or nshards) as ex:
        for cmd, rc, o, e in ex.map(one, range(nshards)):
            if rc == 0:
                try:
                    res.merge(json.loads(o.strip().splitlines()[-1]))
                except (ValueError, IndexError):
                    raise HarnessError("no report from %s: %s %s" % (cmd, o[-500:], e[-500:]))
            elif rc == 3:
                raise HarnessError("%s: %s" % (" ".join(cmd), e[-1500:]))
            else:
                res.violation("%sthe code under test ended the process (%s) in a lawful configuration: %s\n%s\n%s"
                              % (what, rc, " ".join(cmd), o[-1500:], e[-1500:]))


def pmap(fn, items, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
