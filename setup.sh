#!/bin/bash
# Nothing to build: the code under test is pure Python, imported from the working tree of /repo.
# This makes sure that everything the checks need is there.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OMPI_MCA_ess_singleton_isolated=1 MPLBACKEND=Agg
export PYTHONPATH="${VERIF_REPO:-/repo}/src:$here/harness"
mkdir -p "$here/evidence"
cd / && exec /opt/venv/bin/python -c "
import qp, os, numpy, scipy, h5py
assert os.path.realpath(qp.__file__).startswith(os.path.realpath('${VERIF_REPO:-/repo}')), qp.__file__
import common, gens, lib, monitors, plan
print('ready: qp from', qp.__file__)
"
