#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--only substr] [-v]   |   check.py --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONHASHSEED", "0")
if "MPLCONFIGDIR" not in os.environ:
    import tempfile
    import atexit
    import shutil
    _pid = os.getpid()
    os.environ["MPLCONFIGDIR"] = tempfile.mkdtemp(prefix="symx-mpl-")
    _mpl = os.environ["MPLCONFIGDIR"]
    atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_mpl, ignore_errors=True))
sys.path.insert(0, HERE)
from symx.driver import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
