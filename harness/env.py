"""Process environment shared by every check.

Imported first by run.py: fixes the interpreter environment, puts the code
under test (/repo) in front of sys.path and hypothesis (from the offline tool
venv) at the very end, so that numpy/scipy/... always come from the
environment hrosailing itself is installed in.
"""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("HRO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix="hroverif-")
_OWNER = os.getpid()


def _cleanup():
    if os.getpid() == _OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["MPLCONFIGDIR"] = SCRATCH
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

for _p in (VERIF, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)
sys.path[:] = [p for p in sys.path if p]
if TOOLS not in sys.path:
    sys.path.append(TOOLS)

os.chdir(SCRATCH)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import numpy as _np  # noqa: E402

_np.seterr(all="ignore")
