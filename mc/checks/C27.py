"""The CI report: every selection, on a headless document, against the run files."""
import os, shutil, tempfile
import common

PY = "/opt/vp/venv/bin/python"


def run(prefix, tier, res):
    py = PY if os.path.exists(PY) else "python3"
    fake = common.compile_cxx("ci_fake.c", ("-O1",), (), lang="gcc")
    base = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    env = ["env", "PYTHONPATH=" + os.path.join(prefix, "py"), "PYTHONDONTWRITEBYTECODE=1", "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1"]
    n = 24
    try:
        common.run_sharded(lambda i: env + [py, "-s", os.path.join(common.HERE, "report_worker.py"), fake, str(i), str(n), tier, base], res,
                           nshards=n, workers=8, timeout=420 if tier == "quick" else 7200)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.bounds = ("10 sets of run files (1-13 runs, 1-2 repositories, probes that come and go, one or both kinds of backends, outliers, odd names), "
                  "72 ordered pairs and 7 triples of repositories: every state of each view, every action in it, and all ordered pairs of actions of all views; "
                  "all (files <= 5, ignored, maximum); all orders of runs with and without commits up to 7; 15 ages; 192 serve commands; "
                  "run files of the real test command at 3 commits, and the page of the real server")
