#!/opt/venv/bin/python
"""check.py <PROPERTY-ID> [--quick|--thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_REEXEC") != "1":
    # fixed hash seed: the order of sets of strings in the code under test is an
    # input that checks enumerate explicitly, not noise
    env = dict(os.environ)
    env.update(
        VERIF_REEXEC="1",
        PYTHONHASHSEED=env.get("VERIF_HASHSEED", "0"),
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1",
    )
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.join(HERE, "check.py")] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from lib import faults, harness  # noqa: E402

if len(sys.argv) > 1 and sys.argv[1].upper() in ("C23",):
    faults.preload()

if __name__ == "__main__":
    rc = harness.main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
