"""Process environment for every check: must be imported before numpy/matplotlib/chainconsumer."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True

SCRATCH = tempfile.mkdtemp(prefix="verif-mc-")
_owner = os.getpid()


def _cleanup() -> None:
    if os.getpid() == _owner and SCRATCH.startswith(tempfile.gettempdir() + os.sep):
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
_mpl = os.path.join(SCRATCH, "mpl")
os.makedirs(_mpl)
if os.path.isdir("/opt/vp/mplconfig"):
    for _f in os.listdir("/opt/vp/mplconfig"):
        if _f.startswith("fontlist"):
            try:
                shutil.copy(os.path.join("/opt/vp/mplconfig", _f), _mpl)
            except OSError:
                pass
os.environ["MPLCONFIGDIR"] = _mpl

_src = os.path.join(REPO, "src")
sys.path.insert(0, _src)

import logging  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import chainconsumer  # noqa: E402

assert os.path.realpath(chainconsumer.__file__).startswith(os.path.realpath(_src) + os.sep), chainconsumer.__file__
logging.disable(logging.CRITICAL)
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

plt.rcParams["figure.max_open_warning"] = 0
