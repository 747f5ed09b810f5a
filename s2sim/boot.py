"""Process set-up shared by every simulator process.

Must be imported before jax/torch/s2fft: it pins every ambient knob the
dependencies read at import (device, thread pools, x64), so that one seed is
one repeatable execution.
"""
import os
import sys

REPO = os.environ.get("S2SIM_REPO", "/repo")

os.environ["JAX_PLATFORMS"] = "cpu"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
sys.dont_write_bytecode = True

import warnings  # noqa: E402

warnings.simplefilter("ignore")
import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp  # noqa: E402,F401
import numpy as np  # noqa: E402,F401
import torch  # noqa: E402

torch.set_num_threads(1)
import s2fft  # noqa: E402,F401
import s2fft.precompute_transforms.construct  # noqa: E402,F401
import s2fft.precompute_transforms.wigner  # noqa: E402,F401
import s2fft.precompute_transforms.spherical  # noqa: E402,F401
import s2fft.base_transforms as _b  # noqa: E402,F401
import pyssht  # noqa: E402,F401
import scipy.special  # noqa: E402,F401
