"""Worker of C15: the real recording code with simulated run and compare scripts. usage: PREFIX SHARD NSHARDS TIER

subprocess.Popen is replaced by a stand-in that plays the scripts of the user: the run script writes the set it
was given, the compare script looks the outcome of (set, run number) up in a table. Every modification of the
file system is a step at which the process can be made to stop, losing what it has not flushed."""
import builtins, gc, io, itertools, json, os, shutil, subprocess, sys, tempfile, traceback

prefix, shard, nsh, tier = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
sys.path.insert(0, prefix + "/py")
sys.dont_write_bytecode = True
OUT = sys.stdout
sys.stdout = open(os.devnull, "w")
from verificarlo.ddebug import DD, dd_config  # noqa: E402
from verificarlo.ddebug import main as ddmain  # noqa: E402

rep = {"states": 0, "transitions": 0, "traces": 0, "nontrivial": 0, "viols": [], "counters": {}, "samples": []}
REAL_OPEN = builtins.open


def viol(m):
    if len(rep["viols"]) < 10:
        rep["viols"].append(m)


# ------------------------------------------------------------------ steps
STEP = {"on": False, "n": 0, "stop": -1}


class Stop(BaseException):
    pass


def step():
    if STEP["on"]:
        if STEP["n"] == STEP["stop"]:       # and nothing is done any more
            raise Stop
        STEP["n"] += 1


class Lossy(io.StringIO):
    """a file written when it is closed, unless the process has stopped"""

    def __init__(self, f):
        io.StringIO.__init__(self)
        self.f = f

    def fileno(self):
        return self.f.fileno()

    def close(self):
        if not self.closed:
            if STEP["n"] != STEP["stop"]:
                self.f.write(self.getvalue())
            self.f.close()
        io.StringIO.close(self)


def hook(event, args):
    if not STEP["on"]:
        return
    if event == "open":
        if isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            step()
    elif event in ("os.mkdir", "os.symlink", "os.remove", "os.rmdir", "os.rename", "os.link", "os.truncate"):
        step()


def my_open(file, mode="r", *a, **k):
    f = REAL_OPEN(file, mode, *a, **k)
    if STEP["on"] and any(c in mode for c in "wax+"):
        try:
            step()
        except Stop:
            f.close()
            raise
        if "b" not in mode:
            return Lossy(f)
    return f


# ------------------------------------------------------------------ the user's scripts
class World:
    """fail[mask] = set of the numbers of the failing runs"""
    names, fail, log, codes = [], {}, [], (1, 3, 255, -11)

    @classmethod
    def set(cls, names, fail):
        cls.names, cls.fail, cls.log = names, fail, []
        cls.bad = None


def mask_of(path):
    with REAL_OPEN(path) as f:
        lines = f.readlines()
    m = 0
    for l in lines:
        if l not in World.names or m >> World.names.index(l) & 1:
            return None
        m |= 1 << World.names.index(l)
    return m


def run_number(d):
    b = os.path.basename(d.rstrip("/"))
    t = "".join(c for c in b if c.isdigit())
    return int(t) if t else -1


class FakePopen:
    def __init__(self, args, *a, **k):
        self.args, self.pid, self.stdin, self.stdout, self.stderr = args, 1, None, None, None
        self.returncode = None
        env = k.get("env") or os.environ
        tool = os.path.basename(args[0])
        self.rc = 0
        if tool == "run":
            d = args[1]
            if "VFC_DDEBUG_INCLUDE" in env:
                m = mask_of(env["VFC_DDEBUG_INCLUDE"])
                ex = mask_of(env["VFC_DDEBUG_INCLUDE"][:-len("include")] + "exclude")
                if m is None or ex is None or m & ex or m | ex != (1 << len(World.names)) - 1:
                    World.bad = "a run is given include %s and exclude %s" % (m, ex)
                World.log.append((m, run_number(d)))
                step()
                with REAL_OPEN(os.path.join(d, "result"), "w") as f:
                    f.write("%s %d" % (m, run_number(d)))
                step()
            else:
                with REAL_OPEN(os.path.join(d, "dd.line.7"), "w") as f:
                    f.writelines(World.names)
                with REAL_OPEN(os.path.join(d, "result"), "w") as f:
                    f.write("ref")
        elif tool == "cmp":
            with REAL_OPEN(os.path.join(args[1], "result")) as f:
                if f.read() != "ref":
                    World.bad = "the reference given to the compare script is %s" % args[1]
            try:
                with REAL_OPEN(os.path.join(args[2], "result")) as f:
                    r = f.read()
            except OSError:
                World.bad = "a run that did not end is compared (%s)" % args[2]
                r = "ref"
            if r != "ref":
                m, i = map(int, r.split())
                if i in World.fail[m]:
                    self.rc = World.codes[(m + i) % 4]
        else:
            raise AssertionError(args)

    def wait(self, timeout=None):
        self.returncode = self.rc
        return self.rc

    poll = wait

    def communicate(self, input=None, timeout=None):
        self.wait()
        return None, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def kill(self):
        pass
    terminate = kill


def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    for t in ("run", "cmp"):
        with REAL_OPEN(d + "/" + t, "w") as f:
            f.write("#!/bin/sh\n")
        os.chmod(d + "/" + t, 0o755)


def config(d, **kv):
    return dd_config.ddConfig(["dd", d + "/run", d + "/cmp"], {"INTERFLOP_DD_" + k: str(v) for k, v in kv.items()})


# ------------------------------------------------------------------ histories of tests
def histories(d, full):
    names = ["1\n", "12\n", "2\n"]
    jobs = []
    ops = [(s, n) for s in (1, 5) for n in (1, 2, 3)]
    for ln in (1, 2, 3) if not full else (1, 2, 3, 4):
        for seq in itertools.product(ops, repeat=ln):
            if ln == 4 and len({s for s, n in seq}) > 1:
                continue
            jobs.append(seq)
    outs = [frozenset(i for i in (1, 2, 3) if b >> (i - 1) & 1) for b in range(8)]
    k = -1
    for par in (0, 1):
        kv = {"NRUNS": 3}
        if par:
            kv["NUM_THREADS"] = 3
        for seq in jobs:
            used = sorted({s for s, n in seq})
            for o in itertools.product(outs, repeat=len(used)):
                k += 1
                if k % nsh != shard:
                    continue
                one_history(d, names, seq, dict(zip(used, o)), kv)


def one_history(d, names, seq, fail, kv, perm=False):
    fresh(d)
    World.set(names, fail)
    what = "deltas %s, tests (set, runs) %s, failing runs %s, %s" % (names, seq, {s: sorted(f) for s, f in fail.items()}, kv)
    rep["states"] += 1
    rep["traces"] += 1
    try:
        s = ddmain.DDline(config(d, **kv))
        for q, (m, n) in enumerate(seq):
            before = len(World.log)
            L = [x for i, x in enumerate(names) if m >> i & 1]
            if perm and q & 1:
                L.reverse()
            r = s._test(L, n)
            rep["transitions"] += 1 + len(World.log) - before
            mine = [i for mm, i in World.log if mm == m]
            others = [x for x in World.log[before:] if x[0] != m]
            failed = [i for i in mine if i in fail[m]]
            if World.bad:
                return viol(what + ": " + World.bad)
            if others:
                return viol("%s: test %d runs other sets: %s" % (what, q, others))
            if len(set(mine)) != len(mine):
                return viol("%s: after test %d, runs %s of set %d were done: a recorded run is done again" % (what, q, mine, m))
            if r == DD.DD.FAIL and not failed:
                return viol("%s: test %d answers FAIL, runs %s all passed" % (what, q, mine))
            if r == DD.DD.PASS and failed:
                return viol("%s: test %d answers PASS, run %s failed" % (what, q, failed))
            if r == DD.DD.PASS and len(mine) < n:
                return viol("%s: test %d answers PASS after %d runs" % (what, q, len(mine)))
            if r not in (DD.DD.PASS, DD.DD.FAIL):
                return viol("%s: test %d answers %s" % (what, q, r))
        rep["nontrivial"] += 1
    except Exception as x:      # noqa
        viol("%s: %s %s" % (what, type(x).__name__, traceback.format_exc()[-400:]))


def all_subsets(d):
    """names whose concatenations coincide, every subset, in one directory"""
    for names in (["1\n", "12\n", "2\n", "11\n"], ["a: f at x.c:1\n", "a: f at x.c:11\n", "b: f at x.c:1\n", "b: f at x.c:11\n"]):
        for b in range(5):
            for inv in (0, 1):
                fail = {m: {1} if (bin(m).count("1") if b == 4 else m >> b) & 1 ^ inv else set() for m in range(16)}
                one_history(d, names, [(m, 2) for m in list(range(16)) + list(range(15, -1, -1))], fail, {"NRUNS": 2}, perm=True)


# ------------------------------------------------------------------ interrupted searches
def links(d):
    out = {}
    p = os.path.join(d, "dd.line")
    for n in sorted(os.listdir(p)):
        q = os.path.join(p, n)
        if os.path.islink(q):
            inc = [f for f in os.listdir(q) if f.endswith(".include")] if os.path.isdir(q) else []
            out[n] = mask_of(os.path.join(q, inc[0])) if inc else None
    return out


def child(d, kv, stop):
    """the search, stopped before a step; returns (status, report)"""
    os.chdir(d)
    World.log, World.bad = [], None
    STEP.update(on=True, n=0, stop=stop)
    try:
        res = ddmain.DDline(config(d, **kv)).run()
        STEP["on"] = False
        return 0, {"res": res, "links": links(d), "steps": STEP["n"], "bad": World.bad, "log": World.log}
    except Stop:
        return 99, {}
    except SystemExit as e:
        return 98, {"exit": str(e.code)}
    except Exception:
        return 98, {"error": traceback.format_exc()[-600:]}
    finally:
        STEP["on"] = False
        gc.collect(0)


def interrupted(d, names, fail, kv, depth, full):
    what = "search %s over %d deltas, failing runs %s" % (kv, len(names), {s: sorted(f) for s, f in fail.items() if f})
    fresh(d)
    World.set(names, fail)
    st, ref = child(d, kv, -1)
    if st or ref.get("bad"):
        return viol("%s: %s" % (what, ref))
    N = ref["steps"]
    shutil.rmtree(d + ".save", ignore_errors=True)
    for k in range(N):
        fresh(d)
        st, r = child(d, kv, k)
        rep["transitions"] += 1
        if st == 0:         # the steps moved: nothing to interrupt any more
            continue
        if st != 99:
            return viol("%s, before step %d of %d: %s" % (what, k, N, r))
        second = [-1]
        if depth > 1:
            os.rename(d, d + ".save")
            shutil.copytree(d + ".save", d, symlinks=True)
            second = range(-1, N, 1 if full else 7)
        for k2 in second:
            if depth > 1:
                shutil.rmtree(d)
                shutil.copytree(d + ".save", d, symlinks=True)
                if k2 >= 0:
                    st, r = child(d, kv, k2)
                    if st == 0:
                        break
            st, r = child(d, kv, -1)
            rep["states"] += 1
            rep["traces"] += 1
            rep["nontrivial"] += 1
            where = "stopped before step %d of %d%s and restarted" % (k, N, "" if k2 < 0 else ", stopped again before step %d" % k2)
            if st:
                return viol("%s, %s: %s" % (what, where, r))
            if r["bad"]:
                return viol("%s, %s: %s" % (what, where, r["bad"]))
            if r["res"] != ref["res"] or r["links"] != ref["links"]:
                return viol("%s, %s: result %s %s instead of %s %s" % (what, where, r["res"], r["links"], ref["res"], ref["links"]))
        if depth > 1:
            shutil.rmtree(d + ".save", ignore_errors=True)
    rep["counters"]["interruption points"] = rep["counters"].get("interruption points", 0) + N


def searches(full):
    def mono(n, sets, run):
        return {m: ({run} if any(m & c == c for c in sets) else set()) for m in range(1 << n)}
    variants = [{"RDDMIN": "d"}, {"RDDMIN": "s"}, {"RDDMIN": "strict"}, {"ALGO": "ddmax"}]
    two = [[1], [2], [3], [1, 2]]
    three = [[5], [1, 6]] + ([[7]] + [[c] for c in (1, 2, 4, 3, 6)] + [[1, 2], [3, 5], [1, 2, 4]] if full else [])
    out = []
    for v in variants:
        for par in (0, 1):
            for nr in (1, 2) if not full else (1, 2, 3):
                kv = dict(v, NRUNS=nr)
                if par:
                    kv["NUM_THREADS"] = nr
                for run in sorted({1, nr}):
                    out += [(2, mono(2, s, run), kv, 1) for s in two]
                    if nr == 2 or full:
                        out += [(3, mono(3, s, run), kv, 1) for s in three]
    out += [(2, mono(2, [1], 1), {"RDDMIN": "d", "NRUNS": 1}, 2), (2, mono(2, [1, 2], 2), {"RDDMIN": "s", "NRUNS": 2}, 2), (2, mono(2, [3], 1), {"ALGO": "ddmax", "NRUNS": 2, "NUM_THREADS": 2}, 2)]
    return out


def main():
    d0 = os.path.realpath(tempfile.mkdtemp(prefix="vfcdd.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None))
    d = d0 + "/w"
    real = subprocess.Popen
    try:
        subprocess.Popen = FakePopen
        builtins.open = my_open
        io.open = my_open
        sys.addaudithook(hook)
        full = tier != "quick"
        histories(d, full)
        if shard == 0:
            all_subsets(d)
        for k, (n, fail, kv, depth) in enumerate(searches(full)):
            if k % nsh == shard:
                interrupted(d, ["1\n", "12\n", "2\n"][:n], fail, kv, depth, full)
    finally:
        subprocess.Popen = real
        os.chdir("/")
        shutil.rmtree(d0, ignore_errors=True)
    OUT.write(json.dumps(rep) + "\n")


main()
