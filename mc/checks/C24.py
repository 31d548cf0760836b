"""vfc_precexp: the real search on planned profiles and acceptance predicates, and on a compiled program."""
import os, shutil, subprocess, tempfile
import common
from checks import _wrap as W

PY = "/opt/vp/venv/bin/python"
PROG = r"""
#include <stdio.h>
#include <math.h>
__attribute__((noinline)) double f(double a, double *b) { *b = a * 1.1; return a / 3.0 + *b; }
__attribute__((noinline)) float g(float x, float *t) { t[0] = x * 0.3f; return x * 0.1f + 1.0f; }
__attribute__((noinline)) void nothing(int i) { if (i < 0) puts("no"); }
int main(void) {
  double t, r = 0;
  float u;
  for (int i = 0; i < 4; i++) { r += f(i + 0.5, &t); nothing(i); }
  float y = g(2.0f, &u);
  printf("%.17g %.17g %.9g %.9g\n", r, sqrt(r), y, u);
  return 0;
}
"""
RUN = "#!/bin/sh\n./p > \"$1/out\" 2> \"$1/err\" || exit 1\necho run >> tested\n"
CMP = """#!%s
import sys
a = [float(x) for x in open(sys.argv[1] + "/out").read().split()]
b = [float(x) for x in open(sys.argv[2] + "/out").read().split()]
sys.exit(0 if len(a) == 4 == len(b) and all(abs(x - y) <= %s * abs(x) for x, y in zip(a, b)) else 1)
"""


def run(prefix, tier, res):
    py = PY if os.path.exists(PY) else "python3"
    tool = common.compile_cxx("pe_tool.c", ("-O1",), (), lang="gcc")
    base = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    envs = {"PYTHONPATH": os.path.join(prefix, "py"), "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    env = ["env"] + ["%s=%s" % kv for kv in envs.items()]
    try:
        common.run_sharded(lambda i: env + [py, "-s", os.path.join(common.HERE, "pe_worker.py"), tool, str(i), "8", tier, base], res,
                           timeout=800 if tier == "quick" else 7200, what="precision search: ")
        # the same search on a compiled program under the real vprec backend
        d = os.path.join(base, "e2e")
        os.makedirs(d)
        with open(d + "/p.c", "w") as o:
            o.write(PROG)
        if not W.compile_or_violation(prefix, ["--inst-func", "-O0", "-ffp-contract=off", "p.c", "-o", "p", "-lm"], d, res, "precision search program", "verificarlo-c"):
            return
        e = dict(os.environ, VFC_BACKENDS_LOGGER="False", VFC_BACKENDS_SILENT_LOAD="True", **envs)

        def one(job):
            mode, vm, tol, names = job
            w = os.path.join(d, "%s.%s.%s.%d" % (mode, vm, tol, len(names)))
            os.makedirs(w)
            shutil.copy(d + "/p", w + "/p")
            for n, t in (("run", RUN), ("cmp", CMP % (py, tol))):
                with open(w + "/" + n, "w") as o:
                    o.write(t)
                os.chmod(w + "/" + n, 0o755)
            rc, o, er = common.sh([py, "-s", "-m", "verificarlo.optimize.precexp", "run", "cmp", "-m", mode, "--vprec_mode", vm] + names, cwd=w, env=e, timeout=300)
            what = "vfc_precexp -m %s --vprec_mode %s %s on a compiled program, relative error %s accepted" % (mode, vm, " ".join(names), tol)
            if rc != 0:
                return what, "ends with %s\n%s" % (rc, (o + er)[-600:]), 0, False
            n = len(open(w + "/tested").read().split())
            os.makedirs(w + "/final")
            b = "libinterflop_vprec.so --prec-input-file=vfc_config.txt --daz --ftz --mode=%s --instrument=%s" % (vm, mode)
            rc, o, er = common.sh([w + "/run", "final"], cwd=w, env=dict(e, VFC_BACKENDS=b), timeout=60)
            if rc != 0:
                return what, "the configuration written is not usable: %s %s" % (rc, open(w + "/final/err").read()[-400:]), n, False
            rc, o, er = common.sh([w + "/cmp", "vfc_ref", "final"], cwd=w, env=e, timeout=60)
            if rc != 0:
                return what, "the configuration written is rejected: %r against %r\n%s" % (open(w + "/final/out").read(), open(w + "/vfc_ref/out").read(), open(w + "/vfc_config.txt").read()), n, False
            low = open(w + "/final/out").read() != open(w + "/vfc_ref/out").read()
            if vm != "ieee" and not low:
                return what, "nothing was lowered: the final run is the reference one\n%s" % open(w + "/vfc_config.txt").read(), n, False
            return what, None, n, low
        jobs = [(m, v, t, n) for m in ("operations", "arguments", "all") for v in ("ob", "ib", "full", "ieee") for t in ("1e-3", "1e-6") for n in ([], ["f", "g"]) if tier != "quick" or (v in ("ob", "full") and (t == "1e-3" or not n))]
        for what, bad, n, low in common.pmap(one, jobs):
            res.states += n
            res.transitions += 2 * n
            res.traces += 1
            res.nontrivial += low
            res.count("scenarios: compiled program, real vprec backend")
            if bad:
                res.violation("%s: %s" % (what, bad))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.bounds = ("every threshold of every setting alone (operations, arguments, all; scalar and pointer arguments), every pair of settings under 4 shared budgets, all low/middle/full "
                  "assignments of 4-6 settings, all pairs of 7 kinds of functions with every order of calls, 3 call sites in all orders, all function lists of up to 3 of 5 names, "
                  "accepted sets that are not monotone (all 64 for the range), failing, talkative and hanging runs, script paths")
