"""vfc_vtk: all sample vectors, structures, options and sets of outputs of the grids."""
import os, shutil, tempfile
import common

PY = "/opt/vp/venv/bin/python"


def run(prefix, tier, res):
    py = PY if os.path.exists(PY) else "python3"
    base = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    env = ["env", "PYTHONPATH=" + os.path.join(prefix, "py"), "PYTHONDONTWRITEBYTECODE=1", "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1", "PYTHONHASHSEED=0"]
    n = 16
    try:
        common.run_sharded(lambda i: env + [py, "-s", os.path.join(common.HERE, "vtk_worker.py"), str(i), str(n), tier, base], res,
                           nshards=n, workers=8, timeout=420 if tier == "quick" else 7200)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.bounds = ("all vectors of 1-3 samples over 16 values (4 samples over %d), both types, 4 option sets, with and without a reference; "
                  "9 x 9 x 4 contents of the sections of 1-2 pieces; 1-3 outputs of 1-3 files; 8 refusals" % (16 if tier != "quick" else 9))
