"""Process-level seams.  Must be imported before numpy/probnum.

* pins BLAS threads, hash-independent behaviour, no byte-code writes into /repo;
* puts /repo/src (or $VERIF_REPO/src) first on sys.path;
* keeps every cache directory inside a scratch folder.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
if not os.path.exists(PYTHON):
    PYTHON = sys.executable

PIN = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYKEOPS_VERBOSE": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "JAX_PLATFORMS": "cpu",
}


def child_env(scratch=None):
    env = dict(os.environ)
    env.update(PIN)
    if scratch:
        env["KEOPS_CACHE_FOLDER"] = os.path.join(scratch, "keops")
        env["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
        env["TMPDIR"] = scratch
    return env


def bootstrap():
    """Called in worker processes before the system under test is imported."""
    for k, v in PIN.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    if "KEOPS_CACHE_FOLDER" not in os.environ:
        d = tempfile.mkdtemp(prefix="verif-cache-")
        os.environ["KEOPS_CACHE_FOLDER"] = d
        atexit.register(shutil.rmtree, d, True)
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    # `_version.py` is generated (git-ignored) by the build; importing probnum needs it.
    ver = os.path.join(src, "probnum", "_version.py")
    if not os.path.exists(ver):
        try:
            with open(ver, "w") as fh:
                fh.write('version = "1.0.0"\n')
        except OSError:
            pass
    import warnings

    warnings.filterwarnings("ignore")
    _lock_seam(src)
    import probnum

    assert os.path.abspath(probnum.__file__).startswith(os.path.abspath(src)), probnum.__file__
    return probnum


def _lock_seam(src):
    """Locks created by the system under test become locks the simulator can schedule."""
    import threading

    from .tasks import SwitchLock

    def factory(real):
        def make(*a, **k):
            lock = real(*a, **k)
            caller = sys._getframe(1).f_code.co_filename
            return SwitchLock(lock) if caller.startswith(src) else lock
        return make

    import functools

    if hasattr(functools, "RLock"):  # locks inside cached_property and lru_cache
        real_rlock = functools.RLock
        functools.RLock = lambda: SwitchLock(real_rlock())
    threading.Lock, threading.RLock = factory(threading.Lock), factory(threading.RLock)
