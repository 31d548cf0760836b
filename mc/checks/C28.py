"""vfc_ci setup and the workflows it generates, on real repositories, over all histories up to a depth."""
import os, shutil, tempfile
import common

PY = "/opt/vp/venv/bin/python"


def run(prefix, tier, res):
    py = PY if os.path.exists(PY) else "python3"
    base = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    env = ["env", "PYTHONPATH=" + os.path.join(prefix, "py"), "PYTHONDONTWRITEBYTECODE=1"]
    try:
        common.run_sharded(lambda i: env + [py, "-s", os.path.join(common.HERE, "setup_worker.py"), tier, base, "8"], res,
                           nshards=1, workers=1, timeout=780 if tier == "quick" else 14000)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.bounds = ("all histories of up to %d actions out of 19 (setup for both hosts, the generated workflows, untracked, modified and staged files, commits, pushes, "
                  "pushes of others, pulls, branches, a detached HEAD, a remote that refuses branches, a deleted CI branch) from a repository with a README, of up to %d "
                  "out of 7 from one without; 7 forms of remote URL x 2, 18 branch names and a branch named as a tag x all histories of %d of the 3 checked actions"
                  % ((3, 4, 2) if tier == "quick" else (5, 6, 4)))
