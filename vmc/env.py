"""Process set-up: environment variables before jax is imported, and the code under test from /repo."""
from __future__ import annotations

import os
import sys
import warnings

REPO = os.environ.get("VMC_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0"
    " --xla_force_host_platform_device_count=1",
)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore", message=".*persistent compilation cache.*")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load():
    """Import horqrux and make sure it is the working tree of /repo."""
    import horqrux

    where = os.path.realpath(horqrux.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), f"horqrux imported from {where}"
    return horqrux
