"""The CI test command on planned program outputs: statistics, verdicts, attribution."""
import os, shutil, tempfile
import common

PY = "/opt/vp/venv/bin/python"


def run(prefix, tier, res):
    py = PY if os.path.exists(PY) else "python3"
    fake = common.compile_cxx("ci_fake.c", ("-O1",), (), lang="gcc")
    base = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    env = ["env", "PYTHONPATH=" + os.path.join(prefix, "py"), "PYTHONDONTWRITEBYTECODE=1", "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1"]
    try:
        common.run_sharded(lambda i: env + [py, "-s", os.path.join(common.HERE, "ci_worker.py"), fake, str(i), "8", tier, base], res,
                           timeout=850 if tier == "quick" else 7200)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.bounds = "sample vectors: all over 6 values (3 samples), 5 (4), 4 (5), 2 (7), magnitudes 2^-400..2^400, up to 101 samples, thresholds on both sides of and at the boundary; probe names: all pairs over %d; all orders of 3 probes in 3 runs and in run/reference, all missing references; all patterns of crashed runs; non-finite samples; 2 executables x 2 backends" % 32
