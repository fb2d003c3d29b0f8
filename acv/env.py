"""Process environment, scratch space and (slow) shared imports.

Must be imported before anything that imports numpy/torch.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("ACV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("ACV_EVIDENCE", os.path.join(VERIF, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = max(1, len(os.sched_getaffinity(0)))

_root = None
_root_pid = None


def scratch_root():
    """Scratch directory of this run (removed at exit by the process that made it)."""
    global _root, _root_pid
    if _root is None:
        _root = tempfile.mkdtemp(prefix="acv.")
        _root_pid = os.getpid()
        atexit.register(_cleanup)
    return _root


def _cleanup():
    if _root and os.getpid() == _root_pid:
        shutil.rmtree(_root, ignore_errors=True)


def mkdtemp(prefix="c"):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch_root())


def load():
    """Import the code under test (from REPO's working tree) once, before forking workers."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import acetone_nnet

    assert os.path.abspath(acetone_nnet.__file__).startswith(os.path.abspath(src) + os.sep), acetone_nnet.__file__
    return acetone_nnet
