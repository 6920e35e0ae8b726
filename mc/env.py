"""Environment of every harness: import path, the stand-in for the native chunk index, silence, scratch space.

Import this module before anything of mixtera.
"""
import atexit
import os
import random
import shutil
import sys
import tempfile
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTEST_CURRENT_TEST", "verif")  # repo-provided switch: in-process pool, one native thread
os.environ.setdefault("TQDM_DISABLE", "1")
os.environ.setdefault("TOKENIZERS_PARALLELISM", "false")
os.environ.setdefault("HF_HUB_OFFLINE", "1")
os.environ.setdefault("HF_DATASETS_OFFLINE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from mc import shim  # noqa: E402

shim.install()

_scratch = None
_scratch_pid = None


def scratch() -> str:
    """A scratch directory private to this process, removed at exit."""
    global _scratch, _scratch_pid
    if _scratch is None or _scratch_pid != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix="verif-mc-", dir=base)
        _scratch_pid = os.getpid()
        atexit.register(_cleanup, _scratch, _scratch_pid)
    return _scratch


def _cleanup(path, pid):
    if os.getpid() == pid:
        shutil.rmtree(path, ignore_errors=True)


def fresh_dir(name="d") -> str:
    return tempfile.mkdtemp(prefix=name + "-", dir=scratch())


def rmtree(path):
    path = os.path.abspath(path)
    assert path.startswith(scratch() + os.sep), path
    shutil.rmtree(path, ignore_errors=True)


def quiet():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    try:
        from loguru import logger

        logger.remove()
        # keep loguru from formatting at all
        logger.disable("mixtera")
    except Exception:  # pragma: no cover
        pass


def boot():
    """Silence and import mixtera in an order that works."""
    quiet()
    import mixtera.core.datacollection  # noqa: F401  (must precede mixtera.network: circular import)

    quiet()
