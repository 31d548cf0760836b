"""vfc_report: all small sets of exploration results, call sites and function lists of the grids."""
import os, shutil, tempfile
import common

PY = "/opt/vp/venv/bin/python"


def run(prefix, tier, res):
    py = PY if os.path.exists(PY) else "python3"
    base = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    env = ["env", "PYTHONPATH=%s:%s" % (os.path.join(common.HERE, "standin"), os.path.join(prefix, "py")), "PYTHONDONTWRITEBYTECODE=1", "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1", "PYTHONHASHSEED=0"]
    n = 8
    try:
        common.run_sharded(lambda i: env + [py, "-s", os.path.join(common.HERE, "precreport_worker.py"), str(i), str(n), tier, base], res,
                           nshards=n, workers=8, timeout=420 if tier == "quick" else 7200)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.bounds = ("one call site of every kind with every list of up to 2 arguments (8 kinds; [thorough] 3); all orders of up to 2 call sites and half those of 3 out of 10 with similar identities x 12 function lists; "
                  "the sets of functions of the four explorations (8 x 8 x 8 x 4); reports over earlier ones; all subsets of missing results; matplotlib is replaced by a recorder")
