"""C26: logging settings decide what is logged and where, never what the program does."""
import itertools, os, re, subprocess
import common
from checks import _wrap

SRC = r"""
#include <stdio.h>
void interflop_call(int id, ...);
int main(int c, char **v) {
  volatile double x = c, y = 3, z; volatile float f = (float)c, g = 7, h;
  fputs("start\n", stdout); fflush(stdout);
  z = x + y; printf("%a\n", z); z = x - y; printf("%a\n", z); z = x * y; printf("%a\n", z); z = x / y; printf("%a\n", z);
  h = f + g; printf("%a\n", h); h = f - g; printf("%a\n", h); h = f * g; printf("%a\n", h); h = f / g; printf("%a\n", h);
  interflop_call(77);
  x = 1.0000001; y = 1; z = x - y; printf("%a\n", z);
  fputs("own text on stderr\n", stderr);
  return c - 1;
}
"""
SEED = " --seed 5"
LISTS = ["libinterflop_ieee.so", "libinterflop_mca.so" + SEED, "libinterflop_mca_int.so" + SEED, "libinterflop_bitmask.so" + SEED,
         "libinterflop_cancellation.so" + SEED, "libinterflop_cancellation.so --tolerance 3 --warning true" + SEED, "libinterflop_vprec.so --precision-binary64 20",
         "libinterflop_ieee.so --count-op", "libinterflop_ieee.so;libinterflop_mca.so" + SEED, "libinterflop_ieee.so; libinterflop_vprec.so; libinterflop_bitmask.so" + SEED,
         "libinterflop_mca.so --precision-binary64 100" + SEED, "libinterflop_mca.so --precision-binary32 0", "libinterflop_nothing.so", "libinterflop_mca.so --mode nonsense",
         "libinterflop_ieee.so --nonsense", "libinterflop_ieee.so;libinterflop_nothing.so", ";", None]
LOGGER = [None, "True", "true", "False", "FALSE", "", "0", "other"]
LEVEL = [None, "debug", "info", "warning", "error", "DEBUG", "Info", "other"]
COLOR = [None, "True", "False"]
SILENT = [None, "True", "true", "False"]
ANSI = re.compile("\x1b\\[[0-9;]*m")
MSG = re.compile(r"^(Info|Debug) \[[^\]]*\]: ")
HEAD = re.compile(r"^(Error|Warning) \[[^\]]*\]: ")


def launch(exe, blist, env, cwd):
    e = {k: v for k, v in os.environ.items()}
    e.update(env)
    if blist is not None:
        e["VFC_BACKENDS"] = blist
    p = subprocess.Popen([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, stdin=subprocess.DEVNULL)
    try:
        o, er = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        o, er = p.communicate()
        return "timeout", o.decode(errors="replace"), er.decode(errors="replace"), p.pid
    return p.returncode, o.decode(errors="replace"), er.decode(errors="replace"), p.pid


def classify(text):
    """(info lines, debug lines, warning lines, everything else)"""
    info, dbg, warn, rest = [], [], [], []
    for l in ANSI.sub("", text).split("\n"):
        if not l:
            continue
        m = MSG.match(l)
        if m:
            (info if m.group(1) == "Info" else dbg).append(l)
        else:
            h = HEAD.match(l)
            l2 = HEAD.sub("", l)
            (warn if (h and h.group(1) == "Warning") else rest).append(l2)
    return info, dbg, warn, rest


def run(prefix, tier, res):
    res.bounds = ("%d backend lists (8 of them refused) x %d x %d x %d x %d values of the logger, level, color and silent-load variables x log file or not; "
                  "log file names of 1 to 4200 characters, unwritable ones" % (len(LISTS), len(LOGGER), len(LEVEL), len(COLOR), len(SILENT)))
    with common.Scratch() as d:
        open(os.path.join(d, "p.c"), "w").write(SRC)
        if not _wrap.compile_or_violation(prefix, ["-w", "p.c", "-o", "p"], d, res, "logger"):
            return
        exe = os.path.join(d, "p")
        base = {"LD_LIBRARY_PATH": prefix + "/lib"}
        ref = {}
        for b in LISTS:
            rc, o, e, _ = launch(exe, b, base, d)
            rc2, o2, e2, _ = launch(exe, b, dict(base, VFC_BACKENDS_LOGGER_LEVEL="debug"), d)
            ref[b] = (rc, o, classify(e), classify(e2))
            refused = LISTS.index(b) >= 11
            if refused and (rc in (0, "timeout") or rc < 0 or o or not classify(e)[3]):
                res.violation("VFC_BACKENDS=%r should be refused with a message: exit %s, output %r, stderr %r" % (b, rc, o, e))
            if not refused and rc != 0:
                res.violation("VFC_BACKENDS=%r: exit %s\n%s" % (b, rc, e))
            if not refused and not ref[b][2][0]:
                res.violation("VFC_BACKENDS=%r: nothing is logged by default" % b)

        # the load messages, seen with the others already logged
        jobs = []
        for b in LISTS:
            for lg, lv, co, si in itertools.product(LOGGER, LEVEL, COLOR, SILENT):
                for lf in (False, True):
                    if tier == "quick" and lf and co == "False":
                        continue
                    jobs.append((b, lg, lv, co, si, lf))

        def one(k):
            b, lg, lv, co, si, lf = jobs[k]
            env = dict(base)
            for n, v in (("LOGGER", lg), ("LOGGER_LEVEL", lv), ("COLORED_LOGGER", co), ("SILENT_LOAD", si)):
                if v is not None:
                    env["VFC_BACKENDS_" + n] = v
            wd = os.path.join(d, "w%d" % k)
            os.mkdir(wd)
            if lf:
                env["VFC_BACKENDS_LOGFILE"] = os.path.join(wd, "the log")
            rc, o, e, pid = launch(exe, b, env, wd)
            files = {}
            for f in sorted(os.listdir(wd)):
                files[f] = open(os.path.join(wd, f), errors="replace").read()
                os.unlink(os.path.join(wd, f))
            os.rmdir(wd)
            return rc, o, e, pid, files

        for k, (rc, o, e, pid, files) in zip(range(len(jobs)), common.pmap(one, range(len(jobs)))):
            b, lg, lv, co, si, lf = jobs[k]
            r_rc, r_o, r_c, r_d = ref[b]
            res.states += 1
            res.transitions += 1 + len(e.splitlines())
            res.traces += 1
            what = "VFC_BACKENDS=%r LOGGER=%r LEVEL=%r COLORED=%r SILENT_LOAD=%r LOGFILE=%s" % (b, lg, lv, co, si, "set" if lf else "unset")

            def bad(m):
                res.violation("%s: %s\nexit %s\nstdout %r\nstderr %r\nfiles %r" % (what, m, rc, o[:600], e[:2000], str(files)[:2000]))
            if rc != r_rc:
                bad("the exit status changes (%s by default)" % r_rc)
                continue
            if o != r_o:
                bad("what the program prints changes")
                continue
            if lf:
                if any(f != "the log.%d" % pid for f in files):
                    bad("the log is not in the file named after the main thread (%d)" % pid)
                    continue
            elif files:
                bad("files appear")
                continue
            ftxt = "".join(files.values())
            ei, ed, ew, er = classify(e)
            fi, fd, fw, fr = classify(ftxt)
            if fr or fw:
                bad("text in the log file that is no message")
                continue
            if lf and (ei or ed):
                bad("messages on stderr although a log file is set")
                continue
            # errors, own text, counts
            warned = ew + [l for l in er if l in r_c[2]]
            rest = [l for l in er if l not in r_c[2]]
            if rest != r_c[3]:
                bad("errors and other text on stderr change (%r by default)" % r_c[3])
                continue
            off = lg is not None and lg.lower() == "false"
            level = lv.lower() if lv and lv != "other" else "info"
            if not off and lg in (None, "True", "true") and level != "error" and lv != "other" and sorted(warned) != sorted(r_c[2]):
                bad("warnings are lost")
                continue
            gi, gd = (fi, fd) if lf else (ei, ed)
            silent = si is not None and si.lower() == "true"
            maybe_off = lg in ("", "0", "other")
            want_i = r_c[0] if level in ("info", "debug") and not off else []
            want_d = r_d[1] if level == "debug" and not off else []
            key = sorted if lf else list
            if off or level in ("warning", "error"):
                if gi or gd:
                    bad("messages although they are suppressed")
                continue
            if lv == "other" or (si == "False"):
                # undocumented values: messages or none, never others
                if any(l not in r_c[0] + r_d[0] for l in gi) or any(l not in r_d[1] for l in gd):
                    bad("unknown messages")
                continue
            if maybe_off and not gi and not gd:
                continue
            res.nontrivial += 1
            if silent:
                if gi and "--warning" not in (b or ""):
                    bad("load messages in spite of VFC_BACKENDS_SILENT_LOAD")
                elif any(l not in r_c[0] for l in gi) or any("load" in l for l in gi):
                    bad("load messages, or unknown ones")
                elif "--warning" in (b or "") and r_rc == 0 and not gi:
                    bad("the cancellation reports are lost")
                continue
            if level == "debug":
                # the debug level adds to what is logged at level info
                if [l for l in r_d[0] if l not in r_c[0]] or key(gi) != key(r_d[0]) or key(gd) != key(want_d):
                    bad("messages lost, repeated or reordered (%r)" % (r_d[0] + r_d[1]))
                continue
            if gd:
                bad("debug messages")
            elif key(gi) != key(want_i):
                bad("messages lost, repeated or reordered (by default: %r)" % want_i)
            elif co == "True" and gi and "\x1b[" not in (ftxt if lf else e):
                bad("no color")
            elif co == "False" and "\x1b" in e + ftxt:
                bad("color")
        if not any(ref[b][2][2] for b in LISTS):
            raise common.HarnessError("no backend list warns")
        kept(exe, d, base, ref, res)
        names(exe, d, base, ref, res, tier)


def kept(exe, d, base, ref, res):
    """a log file that exists already (an earlier run had the same id) keeps what it holds, also when several backends write"""
    old = "Info [old]: a message of an earlier run\n"
    for b, n in itertools.product(LISTS, (0, 1, 400)):
        if LISTS.index(b) >= 11:
            continue
        wd = os.path.join(d, "k")
        os.mkdir(wd)
        e = dict(os.environ, **base)
        e.update(VFC_BACKENDS=b, VFC_BACKENDS_LOGFILE="log", OLD=old * n)
        p = subprocess.Popen(["/bin/sh", "-c", 'printf "%s" "$OLD" > "log.$$"; exec "' + exe + '"'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=wd)
        o, er = p.communicate(timeout=60)
        txt = open(os.path.join(wd, "log.%d" % p.pid), errors="replace").read()
        common.sh(["rm", "-rf", wd])
        res.states += 1
        res.transitions += len(txt.splitlines())
        res.traces += 1
        res.nontrivial += 1
        if p.returncode != ref[b][0] or o.decode(errors="replace") != ref[b][1]:
            res.violation("VFC_BACKENDS=%r: a log file that exists already changes what the program does: exit %s, %r" % (b, p.returncode, o))
        elif txt[:len(old) * n] != old * n:
            res.violation("VFC_BACKENDS=%r: the log file held %d messages of an earlier run, which are lost: %r" % (b, n, txt[:600]))
        elif sorted(classify(txt[len(old) * n:])[0]) != sorted(ref[b][2][0]):
            res.violation("VFC_BACKENDS=%r: messages added to a log file of %d messages are lost or changed: %r, expected %r" % (b, n, txt[len(old) * n:], ref[b][2][0]))


def names(exe, d, base, ref, res, tier):
    """log files of every length, in directories of every depth, and names that cannot be opened"""
    root = os.path.join(d, "n")
    os.mkdir(root)
    b = LISTS[1]
    lens = sorted(set(list(range(1, 40)) + [100, 200, 240, 300, 500] + list(range(960, 1100, 1 if tier == "thorough" else 4)) + [2000, 3000, 4000] + list(range(4060, 4100, 6)) + [4200, 9000, 60000]))

    def one(n):
        # a relative name of n characters: directories of 50 letters, which exist
        wd = os.path.join(root, "w%d" % n)
        os.mkdir(wd)
        parts, left = [], n
        while left > 120:
            parts.append("d" * 49)
            left -= 50
        name = "/".join(parts + ["l" * left])
        assert len(name) == n
        fd = os.open(wd, os.O_RDONLY)
        try:
            depth = 0
            for p in parts:
                os.mkdir(p, dir_fd=fd)
                f2 = os.open(p, os.O_RDONLY, dir_fd=fd)
                os.close(fd)
                fd = f2
                depth += 1
                if depth > 100:
                    break
            rc, o, e, pid = launch(exe, b, dict(base, VFC_BACKENDS_LOGFILE=name), wd)
            got = os.listdir(fd)
            texts = []
            for f in got:
                if os.path.basename(f) == f and not f.startswith("d" * 49):
                    h = os.open(f, os.O_RDONLY, dir_fd=fd)
                    texts.append((f, os.read(h, 1 << 20).decode(errors="replace")))
                    os.close(h)
        finally:
            os.close(fd)
        return n, name, left, rc, o, e, pid, texts
    for n, name, left, rc, o, e, pid, texts in common.pmap(one, lens):
        res.states += 1
        res.transitions += 1
        res.traces += 1
        what = "a log file name of %d characters" % n
        full = n + 1 + len(str(pid))
        if rc == 0:
            res.nontrivial += 1
            if o != ref[b][1]:
                res.violation("%s changes what the program prints" % what)
            elif [f for f, t in texts] != ["l" * left + ".%d" % pid] or sorted(classify(texts[0][1])[0]) != sorted(ref[b][2][0]):
                res.violation("%s: the messages are not in the file: %r" % (what, str(texts)[:800]))
        elif full <= 4095:
            res.violation("%s, which can be opened: exit %s\n%s" % (what, rc, e[-500:]))
        elif rc == "timeout" or rc < 0 or o or not e:
            res.violation("%s, which cannot be opened: exit %s, output %r, stderr %r" % (what, rc, o, e[-500:]))
    common.sh(["rm", "-rf", root])
    os.mkdir(root)
    open(os.path.join(root, "plain"), "w").close()
    for name in ["missing/x", "plain/x", "/proc/nothing/x", "/dev/null/x"]:
        for lg in (None, "False"):
            env = dict(base, VFC_BACKENDS_LOGFILE=name)
            if lg:
                env["VFC_BACKENDS_LOGGER"] = lg
            rc, o, e, pid = launch(exe, b, env, root)
            res.states += 1
            res.traces += 1
            if rc == 0 and lg and o == ref[b][1]:
                continue
            if rc == 0 or rc == "timeout" or rc < 0 or o or not e:
                res.violation("VFC_BACKENDS_LOGFILE=%s cannot be opened: the program should stop with an error before its first operation: exit %s, output %r, stderr %r" % (name, rc, o, e[-500:]))
    if sorted(os.listdir(root)) != ["plain"]:
        res.violation("files left by refused log files: %r" % os.listdir(root))
