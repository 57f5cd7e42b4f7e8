#!/bin/bash
# usage: run.sh <property id> [--replay FILE] ; the tier comes from VERIF_TIER, the seed from VERIF_SEED
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg JAX_PLATFORMS=cpu OMPI_MCA_ess_singleton_isolated=1 HDF5_USE_FILE_LOCKING=FALSE
export PYTHONPATH="${VERIF_REPO:-/repo}/src"
exec /opt/venv/bin/python "$here/harness/run.py" "$@"
