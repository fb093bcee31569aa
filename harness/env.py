"""Environment of every check: scratch directory, numba cache, import of the code under test from
/repo's working tree.  Import this module before anything from sorcha."""
import atexit
import os
import shutil
import sys
import tempfile

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["TZ"] = "UTC"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

SCRATCH = tempfile.mkdtemp(prefix="sorcha-verif-", dir=os.environ.get("TMPDIR", "/tmp"))
os.environ["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")
os.environ.pop("SORCHA_SEED", None)
sys.path.insert(0, os.path.join(REPO, "src"))

_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner and os.path.basename(SCRATCH).startswith("sorcha-verif-"):
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

_n = 0


def scratch(tag="d"):
    """A fresh directory inside the scratch directory of this check."""
    global _n
    _n += 1
    d = os.path.join(SCRATCH, f"{tag}{_n}")
    os.makedirs(d)
    return d


def child():
    """In a forked part of a check: scratch directories of its own."""
    global SCRATCH, _n
    SCRATCH, _n = tempfile.mkdtemp(prefix=f"part{os.getpid()}-", dir=SCRATCH), 0
